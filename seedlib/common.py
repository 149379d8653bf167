"""What the demonstrations share: builds a binary from the current directory's tree (/repo) in a scratch directory, and puts
stand-ins for the programs it starts on PATH. Everything written stays below the scratch directory."""
import atexit, json, os, shutil, signal, socket, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
SCRATCH = tempfile.mkdtemp(prefix="demo-")
atexit.register(lambda: shutil.rmtree(SCRATCH, ignore_errors=True))

CARGO = r'''#!/usr/bin/env python3
import json, os, re, signal, subprocess, sys, time
a = [x for x in sys.argv[1:] if not x.startswith("+")]
def log(kind, **kw):
    with open(os.environ["DEMO_LOG"], "a") as f:
        f.write(json.dumps(dict(kind=kind, pid=os.getpid(), at=time.time(), args=a, cwd=os.getcwd(), **kw)) + "\n")
def env_plan(name):
    try:
        return open(os.path.join(os.environ["DEMO_PLAN"], name)).read()
    except OSError:
        return None
def act(text, final):
    m = re.search(r"sleep=([0-9.]+)", text)
    if m: time.sleep(float(m.group(1)))
    final()
    m = re.search(r"exit=([0-9]+)", text)
    if m: sys.stdout.flush(); os._exit(int(m.group(1)))
    m = re.search(r"sig=([0-9]+)", text)
    if m: sys.stdout.flush(); os.kill(os.getpid(), int(m.group(1))); time.sleep(9)
if "new" in a[:1]:
    p = env_plan("new") or ""
    log("new")
    d = [x for x in a[1:] if not x.startswith("-")][0]
    if os.path.exists(d):
        sys.stderr.write("error: destination exists\n"); sys.exit(101)
    act(p, lambda: None)
    os.makedirs(d + "/src")
    open(d + "/Cargo.toml", "w").write("[package]\n")
    open(d + "/src/main.rs", "w").write("fn main() {}\n")
elif "miri" in a:
    p = env_plan("miri") or "/demo/sysroot"
    log("miri")
    act(p, lambda: sys.stdout.write(p.split()[0] + "\n"))
elif "aquascope" in a:
    op = a[-1] if not a[-1].startswith("-") else a[-2]
    code = open("src/main.rs").read()
    log("aquascope", op=op, code=code, env={k: os.environ.get(k) for k in ("MIRI_SYSROOT", "LD_LIBRARY_PATH")})
    directives = "".join(re.findall(r"/\*(?:%s:)?([a-z]+=.*?)\*/" % op, code))
    if "term=ignore" in directives: signal.signal(signal.SIGTERM, signal.SIG_IGN)
    def out():
        m = re.search(r"err=(\S+)", directives)
        if m: sys.stderr.write(eval(m.group(1))); sys.stderr.flush()
        time.sleep(0.02)
        again = open("src/main.rs").read()
        m = re.search(r"as=(\w+)", directives)
        if m:
            sys.stdout.write(env_plan("response-" + m.group(1)) + "\n"); sys.stdout.flush(); return
        sys.stdout.write(json.dumps([{"Ok": {"op": op, "code": again, "flags": [x for x in a if x.startswith("--") and x != "--quiet"]}}]) + "\n")
        sys.stdout.flush()
    act(directives, out)
    log("done", op=op, code=code)
'''
RUSTUP = r'''#!/bin/sh
f=$DEMO_PLAN/rustup
if [ -e "$f" ]; then . "$f"; fi
echo %s/rustc
'''
RUSTC = r'''#!/bin/sh
f=$DEMO_PLAN/rustc
if [ -e "$f" ]; then . "$f"; fi
echo /demo/libdir
'''
WHICH = r'''#!/bin/sh
echo %s/other-rustc
'''
OTHER = r'''#!/bin/sh
echo /demo/other-libdir
'''


def build(package):
    ws, target = SCRATCH + "/ws", SCRATCH + "/target"
    env = dict(os.environ, SIM_REPO=os.getcwd(), CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=target, CARGO_PROFILE_DEV_DEBUG="0",
               CARGO_INCREMENTAL="0", RUSTUP_TOOLCHAIN="nightly-2024-12-15")
    env["PATH"] = "/usr/local/bin:/root/.cargo/bin:" + env.get("PATH", "/usr/bin:/bin")
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET"):
        env.pop(k, None)
    subprocess.run([sys.executable, HERE + "/mirror.py", ws], env=env, check=True)
    r = subprocess.run(["cargo", "build", "--offline", "-q", "-p", package, "--bins"], cwd=ws, env=env, stderr=subprocess.PIPE, text=True)
    if r.returncode:
        print(r.stderr[-4000:])
        sys.exit(2)
    return target + "/debug/" + package


class World:
    """The stand-ins, their plan, and a log of what was started."""

    def __init__(self):
        self.dir = tempfile.mkdtemp(dir=SCRATCH)
        self.bin, self.tmp, self.plan, self.log = (self.dir + x for x in ("/bin", "/tmp", "/plan", "/log"))
        for d in (self.bin, self.tmp, self.plan):
            os.mkdir(d)
        open(self.log, "w").close()
        for name, text in [("cargo", CARGO), ("rustup", RUSTUP % self.bin), ("rustc", RUSTC), ("which", WHICH % self.bin), ("other-rustc", OTHER)]:
            with open(self.bin + "/" + name, "w") as f:
                f.write(text)
            os.chmod(f.name, 0o755)
        self.env = dict(PATH=self.bin + ":/usr/bin:/bin", TMPDIR=self.tmp, HOME=self.dir, DEMO_LOG=self.log, DEMO_PLAN=self.plan)

    def started(self, kind="aquascope"):
        return [e for e in map(json.loads, open(self.log)) if e["kind"] == kind]

    def set_plan(self, name, text):
        with open(self.plan + "/" + name, "w") as f:
            f.write(text)

    def add_response(self, name, text):
        """what the analysis of a program with /*as=NAME*/ writes"""
        self.set_plan("response-" + name, text)

    def drop_plan(self, name):
        os.remove(self.plan + "/" + name)


def block(code, ops="permissions", config=""):
    return "```aquascope,%s%s\n%s\n```" % (ops, config, code)


class Book(World):
    def __init__(self, binary, env=None):
        super().__init__()
        self.binary = binary
        self.book = self.dir + "/book"
        os.makedirs(self.book + "/src")
        self.env.update(dict(MIRI_SYSROOT="/demo/sysroot", RUSTC_PATH=self.bin + "/rustc") if env is None else env)

    def start(self, *chapters):
        sections = []
        for i, c in enumerate(chapters):
            p = "chapter_%d.md" % i
            sections.append({"Chapter": {"name": p, "content": c, "number": [i + 1], "sub_items": [], "path": p, "source_path": p, "parent_names": []}})
        doc = [{"root": self.book, "config": {"book": {"src": "src", "title": "t", "authors": [], "language": "en", "multilingual": False},
                "preprocessor": {"aquascope": {}}}, "renderer": "html", "mdbook_version": "0.4.40"}, {"sections": sections, "__non_exhaustive": None}]
        p = subprocess.Popen([self.binary], cwd=self.book, env=self.env, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        p.doc = json.dumps(doc).encode()
        return p

    def build(self, *chapters, timeout=120):
        """exit status, contents of the chapters (or None), standard error"""
        p = self.start(*chapters)
        out, err = p.communicate(p.doc, timeout=timeout)
        try:
            chaps = [s["Chapter"]["content"] for s in json.loads(out)["sections"]]
        except ValueError:
            chaps = None
        return p.returncode, chaps, err.decode("utf-8", "replace")


def embeds(content):
    """what each element of a chapter shows: (code, responses)"""
    import html, re
    r = []
    for m in re.finditer(r'<div [^>]*class="aquascope-embed"[^>]*>', content):
        t = m.group(0)
        g = lambda k: json.loads(html.unescape(re.search(r'data-%s="([^"]*)"' % k, t).group(1)))
        r.append((g("code"), g("responses")))
    return r


class Server(World):
    def __init__(self, binary, **env):
        super().__init__()
        s = socket.socket()
        s.bind(("127.0.0.1", 0))
        self.port = s.getsockname()[1]
        s.close()
        self.env.update(MIRI_SYSROOT="/demo/sysroot", AQUASCOPE_SERVER_PORT=str(self.port), **env)
        for k in [k for k, v in env.items() if v is None]:
            del self.env[k]
        self.p = subprocess.Popen([binary], cwd=self.dir, env=self.env, stderr=open(self.dir + "/stderr", "w"))
        atexit.register(self.p.kill)
        for _ in range(200):
            try:
                self.connect().close()
                return
            except OSError:
                time.sleep(0.05)
        print("the server does not start")
        sys.exit(2)

    def connect(self):
        return socket.create_connection(("127.0.0.1", self.port), timeout=60)

    def send(self, op, code, config=None):
        b = {"code": code}
        if config is not None:
            b["config"] = config
        b = json.dumps(b).encode()
        s = self.connect()
        s.sendall(b"POST /%s HTTP/1.1\r\nHost: x\r\nContent-Type: application/json\r\nConnection: close\r\nContent-Length: %d\r\n\r\n" % (op.encode(), len(b)) + b)
        return s

    def receive(self, s):
        """status (None: no response) and body"""
        d = b""
        try:
            while True:
                x = s.recv(65536)
                if not x:
                    break
                d += x
        except socket.timeout:
            return None, b"timeout"
        if b"\r\n\r\n" not in d:
            return None, d
        h, b = d.split(b"\r\n\r\n", 1)
        return int(h.split(b" ")[1]), b

    def ask(self, op, code, config=None):
        return self.receive(self.send(op, code, config))


class Driver:
    """The analysis itself."""

    def __init__(self):
        self.bin = os.path.dirname(build("aquascope_front")) + "/aquascope-driver"
        env = dict(os.environ, RUSTUP_TOOLCHAIN="nightly-2024-12-15")
        env["PATH"] = "/usr/local/bin:/root/.cargo/bin:" + env.get("PATH", "/usr/bin:/bin")
        self.sysroot = subprocess.run(["rustc", "--print", "sysroot"], env=env, stdout=subprocess.PIPE, text=True, check=True).stdout.strip()

    def directory(self):
        d = tempfile.mkdtemp(dir=SCRATCH)
        os.makedirs(d + "/src")
        os.makedirs(d + "/target")
        return d

    def run(self, code, mode=None, flows=False, stdout=subprocess.PIPE, timeout=60, before=None, wrap=(), at=None):
        """exit status, standard output, standard error"""
        d = at or self.directory()
        with open(d + "/src/main.rs", "w") as f:
            f.write(code)
        env = dict(PATH="/usr/bin:/bin", LD_LIBRARY_PATH=self.sysroot + "/lib", SYSROOT=self.sysroot, CARGO_PRIMARY_PACKAGE="1", TMPDIR=d,
                   PLUGIN_ARGS=json.dumps({"should_fail": False, "command": {"Permissions": {"steps_include_mode": mode, "show_flows": flows}}}))
        p = subprocess.Popen([*wrap, self.bin, "rustc", "--crate-name", "example", "--edition=2021", "src/main.rs", "--crate-type", "bin", "--emit=metadata",
                              "--out-dir", "target"], cwd=d, env=env, stdin=subprocess.DEVNULL, stdout=stdout, stderr=subprocess.PIPE, preexec_fn=before)
        try:
            out, err = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            return None, b"", b""
        return p.returncode, out, err

    def results(self, code, **kw):
        rc, out, err = self.run(code, **kw)
        if rc != 0:
            print(err.decode()[-2000:])
            sys.exit(2)
        return json.loads(out)


def check(ok, what):
    if not ok:
        print("FAILED:", what)
        sys.exit(1)
