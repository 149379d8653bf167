// build.mjs OUT: bundles the pages of /repo's front end, as they are in the working tree, with the stand-ins for the
// libraries they import (none of which is installed here) into OUT/{standalone,embed,api}.js.
import { createRequire } from "node:module";
import fs from "node:fs";
import path from "node:path";
import { fileURLToPath } from "node:url";

const here = path.dirname(fileURLToPath(import.meta.url));
const esbuild = createRequire("/opt/veriftools/node/node_modules/")("esbuild");
const packages = (process.env.SIM_REPO ?? "/repo") + "/frontend/packages";
const out = process.argv[2];
const stub = name => path.join(here, "stubs", name);
const stubs = {
  "@codemirror/state": "state.cjs", "@codemirror/view": "view.cjs", react: "react.cjs", "react-dom": "react-dom.cjs", "react-dom/client": "react-dom.cjs",
  lodash: "lodash.cjs", classnames: "classnames.cjs", "@aquascope/leader-line": "leader-line.cjs"
};
const plugin = {
  name: "libraries",
  setup(b) {
    b.onResolve({ filter: /.*/ }, a => {
      if (a.kind === "entry-point") return undefined;
      if (/\.(s?css|svg|png)$/.test(a.path)) return { path: stub("any.cjs") };
      if (/(^|\/)bindings(\/|$)/.test(a.path)) return { path: stub("any.cjs") }; // generated types
      if (a.path === "@aquascope/editor") return { path: `${packages}/aquascope-editor/src/lib.tsx` };
      if (a.path.startsWith("lodash/")) return { path: stub("lodash.cjs") };
      if (stubs[a.path]) return { path: stub(stubs[a.path]) };
      if (!a.path.startsWith(".") && !path.isAbsolute(a.path)) return { path: stub("any.cjs") };
      return undefined;
    });
  }
};
fs.mkdirSync(out, { recursive: true });
const api = `export * from ${JSON.stringify(packages + "/aquascope-editor/src/lib.tsx")}`;
for (let [name, from] of [
  ["standalone", { entryPoints: [`${packages}/aquascope-standalone/src/index.tsx`] }],
  ["embed", { entryPoints: [`${packages}/aquascope-embed/src/main.tsx`] }],
  ["api", { stdin: { contents: api, resolveDir: packages, loader: "ts" } }]
]) {
  try {
    await esbuild.build({
      ...from, bundle: true, outfile: `${out}/${name}.js`, format: "iife", globalName: "__page", platform: "browser", target: "es2022", jsx: "transform",
      charset: "utf8", logLevel: "error", plugins: [plugin], sourcemap: false, legalComments: "none", tsconfigRaw: "{}"
    });
  } catch (e) {
    console.error(`error: the front end (${name}) cannot be bundled: ${e.message}`);
    process.exit(2);
  }
}
fs.copyFileSync(`${packages}/aquascope-standalone/index.html`, `${out}/standalone.html`);
