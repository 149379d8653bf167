//! The mailbox shared with the LD_PRELOAD stub (mirrors stub.c).
use std::sync::atomic::AtomicU32;

pub const MAX_SLOTS: usize = 512;
pub const OP_RET: i64 = 1;
pub const OP_SIG: i64 = 3;
pub const OP_JOIN: i64 = 4;
pub const OP_EXIT: i64 = 5;
pub const OP_RAWRET: i64 = 6;

pub const X_HELLO: i64 = 10001;
pub const X_THREAD_NEW: i64 = 10002;
pub const X_SPAWN: i64 = 10003;
pub const X_YIELD: i64 = 10004;
pub const X_FORK: i64 = 10005;
pub const X_DONE: i64 = 10006;
pub const X_FORKED: i64 = 10105;

#[repr(C)]
pub struct Slot {
  pub resp: AtomicU32,
  pub pad0: u32,
  pub nr: i64,
  pub args: [i64; 6],
  pub op: i64,
  pub ret: i64,
  pub raw_nr: i64,
  pub raw_args: [i64; 6],
  pub sigmask: u64,
  pub real_tid: i64,
  pub mallocs: i64,
  pub pad: [i64; 2],
}

#[repr(C)]
pub struct Header {
  pub event: AtomicU32,
  pub event_slot: u32,
  pub now_mono: i64,
  pub now_real: i64,
  pub pad: [i64; 13],
  pub slots: [Slot; MAX_SLOTS],
}

pub struct Shm {
  pub fd: i32,
  pub h: *mut Header,
}

impl Shm {
  pub fn new() -> Shm {
    unsafe {
      let fd = libc::memfd_create(b"sim\0".as_ptr() as *const _, 0);
      assert!(fd >= 0, "memfd_create");
      let sz = std::mem::size_of::<Header>();
      assert_eq!(libc::ftruncate(fd, sz as i64), 0);
      let h = libc::mmap(
        std::ptr::null_mut(),
        sz,
        libc::PROT_READ | libc::PROT_WRITE,
        libc::MAP_SHARED,
        fd,
        0,
      );
      assert!(h != libc::MAP_FAILED);
      Shm { fd, h: h as *mut Header }
    }
  }
  pub fn reset(&self) {
    unsafe {
      std::ptr::write_bytes(self.h as *mut u8, 0, std::mem::size_of::<Header>());
    }
  }
}

pub fn futex_wake(w: &AtomicU32) {
  unsafe {
    libc::syscall(libc::SYS_futex, w as *const _ as *const u32, libc::FUTEX_WAKE, 1, 0, 0, 0);
  }
}

pub fn futex_wait(w: &AtomicU32, val: u32, ms: i64) {
  let ts = libc::timespec { tv_sec: ms / 1000, tv_nsec: (ms % 1000) * 1_000_000 };
  unsafe {
    libc::syscall(
      libc::SYS_futex,
      w as *const _ as *const u32,
      libc::FUTEX_WAIT,
      val,
      &ts as *const _,
      0,
      0,
    );
  }
}
