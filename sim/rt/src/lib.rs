//! The simulator runtime: everything the code under test could draw nondeterminism from is owned
//! here.  One process = one simulated run.  Caller threads are real threads, of which exactly one
//! (the baton holder) runs at any time; who runs is decided at instrumented memory accesses, edges
//! and intercepted blocking calls, by a seeded strategy or by an explicit recorded schedule.
#![feature(thread_local, alloc_error_hook)]
#![allow(static_mut_refs)]
#![allow(suspicious_runtime_symbol_definitions, invalid_runtime_symbol_definitions)]
#![allow(clippy::missing_safety_doc)]

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering::*};

pub mod rng;
pub use rng::Rng;

/// tasks: callers, and threads that the library itself starts
pub const MAXT: usize = 96;

// ---------------------------------------------------------------- raw system calls
#[inline(always)]
unsafe fn sys6(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, out("rcx") _, out("r11") _);
    r
}
pub fn raw_exit(code: i32) -> ! {
    unsafe {
        sys6(231, code as usize, 0, 0, 0, 0, 0);
    }
    loop {}
}
extern "C" {
    fn __errno_location() -> *mut i32;
    fn pthread_self() -> usize;
    fn pthread_getattr_np(t: usize, attr: *mut u8) -> i32;
    fn pthread_attr_getstack(attr: *const u8, addr: *mut usize, size: *mut usize) -> i32;
    fn pthread_attr_destroy(attr: *mut u8) -> i32;
    fn mmap(a: usize, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    static __data_start: u8;
    static _end: u8;
}
unsafe fn ret_errno(r: i64) -> i64 {
    if r < 0 {
        *__errno_location() = (-r) as i32;
        -1
    } else {
        r
    }
}

// ---------------------------------------------------------------- shared report area
pub const MAXOUT: usize = 2400;
pub const OUTW: usize = 48;
pub const MAXREC: usize = 4096;
pub const NFAULT: usize = 32;

#[repr(C)]
#[derive(Clone, Copy)]
pub struct Outcome {
    /// 0 not finished, 1 value, 2 library panic, 3 injected participant failure, 4 out of memory
    pub status: u32,
    pub n: u32,
    pub steps: u64,
    pub pts: u64,
    pub allocs: u32,
    pub cbs: u32,
    /// FL_* bits: what actually went wrong during the call
    pub fl: u32,
    pub moves: u32,
    pub w: [u64; OUTW],
}
pub const FL_PANIC: u32 = 1;
pub const FL_BADKIND: u32 = 2;
pub const FL_NOSUPPORT: u32 = 4;
pub const FL_DISTURBED: u32 = 8;
pub const FL_OOM: u32 = 16;
/// the receiver of an abandoned in-place call is not as it was
pub const FL_RECV: u32 = 32;
pub const FL_BADSHAPE: u32 = 64;
pub const FL_SHORT: u32 = 128;
pub const OUT0: Outcome = Outcome { status: 0, n: 0, steps: 0, pts: 0, allocs: 0, cbs: 0, fl: 0, moves: 0, w: [0; OUTW] };
impl Outcome {
    pub fn push(&mut self, x: u64) {
        let i = self.n as usize;
        if i < OUTW {
            self.w[i] = x;
        } else {
            // fold what does not fit
            self.w[OUTW - 1] = rng::mix(self.w[OUTW - 1] ^ x.wrapping_add(i as u64));
        }
        self.n += 1;
    }
    pub fn same(&self, o: &Outcome) -> bool {
        self.status == o.status && self.n == o.n && {
            let m = (self.n as usize).min(OUTW);
            self.w[..m] == o.w[..m]
        }
    }
    pub fn words(&self) -> &[u64] {
        &self.w[..(self.n as usize).min(OUTW)]
    }
}

#[repr(C)]
#[derive(Clone, Copy)]
pub struct Rec {
    pub at: u64,
    pub to: u8,
    pub forced: u8,
}

pub mod verdict {
    pub const NONE: u32 = 0;
    pub const DEADLOCK: u32 = 1;
    pub const BLOCKED_BY_STALL: u32 = 2;
    pub const UNBOUNDED: u32 = 3;
    pub const CUSTOM: u32 = 4;
    pub const HARNESS: u32 = 9;
}

#[repr(C)]
pub struct Shm {
    pub verdict: u32,
    pub finished: u32,
    pub nout: u32,
    pub nrec: u32,
    pub steps: u64,
    pub pts: u64,
    pub switches: u64,
    pub trace: u64,
    pub kinds: [u64; 6],
    pub faults: [u64; NFAULT],
    pub env_hits: [u64; 8],
    pub vtime: u64,
    pub aux: [u64; 32],
    pub msglen: u32,
    pub msg: [u8; 1500],
    pub rec: [Rec; MAXREC],
    pub out: [Outcome; MAXOUT],
}
impl Shm {
    pub fn reset(&mut self) {
        let n = (self.nout as usize).min(MAXOUT);
        for o in &mut self.out[..n.max(1)] {
            *o = OUT0;
        }
        self.verdict = 0;
        self.finished = 0;
        self.nout = 0;
        self.nrec = 0;
        self.steps = 0;
        self.pts = 0;
        self.switches = 0;
        self.trace = 0;
        self.kinds = [0; 6];
        self.faults = [0; NFAULT];
        self.env_hits = [0; 8];
        self.vtime = 0;
        self.aux = [0; 32];
        self.msglen = 0;
    }
    pub fn message(&self) -> String {
        String::from_utf8_lossy(&self.msg[..self.msglen as usize]).into_owned()
    }
    /// keep the first complaint of a run
    pub fn note(&mut self, s: &str) {
        if self.msglen == 0 {
            self.set_message(s);
        }
        if self.verdict == 0 {
            self.verdict = verdict::CUSTOM;
        }
    }
    pub fn set_message(&mut self, s: &str) {
        let b = s.as_bytes();
        let n = b.len().min(self.msg.len());
        self.msg[..n].copy_from_slice(&b[..n]);
        self.msglen = n as u32;
    }
}
/// shared, zeroed memory that survives fork
pub fn map_shared(len: usize) -> *mut u8 {
    let p = unsafe { mmap(0, len, 3, 0x21, -1, 0) };
    assert!(p as isize != -1, "mmap failed");
    p
}
pub fn new_shm() -> &'static mut Shm {
    unsafe { &mut *(map_shared(std::mem::size_of::<Shm>()) as *mut Shm) }
}
pub static mut SHM: *mut Shm = std::ptr::null_mut();
pub fn shm() -> &'static mut Shm {
    unsafe { &mut *SHM }
}
/// kinds of injected faults, counted when they actually happen
pub mod fault {
    pub const PREEMPT: usize = 0;
    pub const STALL: usize = 1;
    pub const PANIC_CB: usize = 2;
    pub const REENTER: usize = 3;
    pub const OOM: usize = 4;
    pub const MOVE: usize = 5;
    pub const NOSUPPORT: usize = 6;
    pub const JITTER: usize = 7;
    pub const CLOCK: usize = 8;
    pub const ENTROPY: usize = 9;
    pub const ENVVAR: usize = 10;
    pub const STDIO: usize = 11;
    pub const FILE: usize = 12;
    pub const NET_REORDER: usize = 13;
    pub const NET_DUP: usize = 14;
    pub const NET_DROP: usize = 15;
    pub const NET_DELAY: usize = 16;
    pub const CRASH: usize = 17;
    pub const RETRY: usize = 18;
    pub const LIBPANIC: usize = 19;
    pub const BADKIND: usize = 20;
    pub const STALE: usize = 21;
    pub const THREAD_EXIT: usize = 22;
    pub const PARTITION: usize = 23;
    pub const BADSHAPE: usize = 24;
    pub const SHORT: usize = 25;
    pub const NOTHREAD: usize = 26;
    pub const UNWINDING: usize = 27;
    pub const IN_HOOK: usize = 28;
    pub const LAST_CALL: usize = 29;
    pub const NAMES: [&str; 30] = [
        "thread_preempted_inside_call", "thread_stalled_inside_call", "participant_panic", "reentrant_call",
        "allocation_failure", "participant_moved_mid_call", "missing_support_point", "support_jitter",
        "clock_read_disturbed", "entropy_read_disturbed", "environment_read_disturbed", "stdio_write_failed",
        "file_open_failed", "message_reordered", "message_duplicated", "message_lost", "message_delayed",
        "worker_crash_restart", "failed_merge_retried", "library_panic_caught", "unsupported_bound_kind",
        "stale_support_point", "thread_exit", "network_partition", "unsupported_shape_kind",
        "shape_data_cut_short", "thread_start_disturbed",
        "call_while_unwinding", "call_from_panic_hook", "call_while_thread_ends",
    ];
}
#[inline]
pub fn fired(k: usize) {
    unsafe {
        if !SHM.is_null() {
            (*SHM).faults[k] += 1;
        }
    }
}

// ---------------------------------------------------------------- coverage of the library
pub static mut COV: *mut u8 = std::ptr::null_mut();
pub const COVN: usize = 1 << 16;
static NGUARD: AtomicU32 = AtomicU32::new(0);
static GUARD_MODULES: AtomicU32 = AtomicU32::new(0);
pub fn guards() -> u32 {
    NGUARD.load(Relaxed)
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(mut a: *mut u32, b: *mut u32) {
    if a == b || *a != 0 {
        return;
    }
    GUARD_MODULES.fetch_add(1, Relaxed);
    while a < b {
        *a = NGUARD.fetch_add(1, Relaxed) + 1;
        a = a.add(1);
    }
}

// ---------------------------------------------------------------- thread-local state
#[thread_local]
static IN_LIB: Cell<bool> = Cell::new(false);
#[thread_local]
static TID: Cell<i32> = Cell::new(-1);
#[thread_local]
static STK: Cell<(usize, usize)> = Cell::new((0, 0));
#[thread_local]
static TLSB: Cell<(usize, usize)> = Cell::new((0, 0));
#[thread_local]
static A_CNT: Cell<u32> = Cell::new(0);
#[thread_local]
static OOM_HIT: Cell<u32> = Cell::new(0);
#[thread_local]
static F_LO: Cell<u32> = Cell::new(u32::MAX);
#[thread_local]
static F_HI: Cell<u32> = Cell::new(0);

/// run code of the library under test
#[inline(always)]
pub fn lib<R>(f: impl FnOnce() -> R) -> R {
    let g = Flag(IN_LIB.replace(true));
    let r = f();
    drop(g);
    r
}
/// run simulator code called back from the library
#[inline(always)]
pub fn outside<R>(f: impl FnOnce() -> R) -> R {
    let g = Flag(IN_LIB.replace(false));
    let r = f();
    drop(g);
    r
}
struct Flag(bool);
impl Drop for Flag {
    #[inline(always)]
    fn drop(&mut self) {
        IN_LIB.set(self.0);
    }
}
pub fn in_lib() -> bool {
    IN_LIB.get()
}
fn fs_base() -> usize {
    let r: usize;
    unsafe { std::arch::asm!("mov {}, fs:0", out(reg) r) };
    r
}
/// room for calls nested far down, in this program after it restarts itself
pub fn large_stack() {
    extern "C" {
        fn getrlimit(what: i32, to: *mut [u64; 2]) -> i32;
        fn setrlimit(what: i32, to: *const [u64; 2]) -> i32;
    }
    let mut l = [0u64; 2];
    unsafe {
        if getrlimit(3, &mut l) == 0 {
            l[0] = l[0].max(96 << 20).min(l[1]);
            setrlimit(3, &l);
        }
    }
}
pub fn note_thread() {
    unsafe {
        let mut attr = [0u8; 128];
        if pthread_getattr_np(pthread_self(), attr.as_mut_ptr()) == 0 {
            let (mut a, mut s) = (0usize, 0usize);
            pthread_attr_getstack(attr.as_ptr(), &mut a, &mut s);
            pthread_attr_destroy(attr.as_mut_ptr());
            STK.set((a, a + s));
        }
        let fs = fs_base();
        TLSB.set((fs - 16384, fs + 4096));
    }
}

// ---------------------------------------------------------------- the scheduler
#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Idle,
    Ready,
    Blocked,
    Stalled,
    Done,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Strategy {
    /// no switch inside calls; at call boundaries with probability p/256
    Serial { p_op: u32 },
    /// switch at a point of each kind with probability x/65536
    /// slow: bits of threads that are soon put aside and chosen one time in n (n: the bits from 24 on)
    Rand { p_static: u32, p_heap: u32, p_edge: u32, p_op: u32, slow: u32 },
    /// priorities with d change points
    Pct { changes: Vec<u64>, p_static: u32 },
    /// exactly this schedule: (point, task) voluntary switches and the sequence of forced picks
    Explicit { vol: Vec<(u64, u8)>, forced: Vec<u8> },
}
pub struct SchedCfg {
    pub seed: u64,
    pub strategy: Strategy,
    pub stalls: Vec<(u8, u64)>,
    pub op_limit: u64,
    pub stall_mode: bool,
}
pub const K_STATIC: usize = 0;
pub const K_HEAP: usize = 1;
pub const K_OTHER: usize = 2;
pub const K_EDGE: usize = 3;
pub const K_STACK: usize = 4;
pub const K_OP: usize = 5;

struct Rt {
    active: bool,
    n: usize,
    cur: usize,
    st: [St; MAXT],
    faddr: [usize; MAXT],
    deadline: [u64; MAXT],
    woken: [bool; MAXT],
    steps: u64,
    pts: u64,
    tsteps: [u64; MAXT],
    tpts: [u64; MAXT],
    opstart: [u64; MAXT],
    oplimit: [u64; MAXT],
    since: u64,
    seed: u64,
    strategy: Strategy,
    stalls: Vec<(u8, u64)>,
    stall_mode: bool,
    prio: [i64; MAXT],
    lowprio: i64,
    nextchange: usize,
    fidx: usize,
    vidx: usize,
    rng: Rng,
    clock_off: u64,
    /// threads that the library started, or that were taken in because it did
    adopted: [bool; MAXT],
    library: [bool; MAXT],
    handle: [usize; MAXT],
}
static mut RT: Option<Rt> = None;
static WORD: [AtomicU32; MAXT + 1] = [const { AtomicU32::new(0) }; MAXT + 1];
const MAINW: usize = MAXT;

fn park(w: usize) {
    unsafe {
        let a = &WORD[w];
        while a.load(SeqCst) == 0 {
            sys6(202, a as *const _ as usize, 128, 0, 0, 0, 0);
        }
        a.store(0, SeqCst);
    }
}
fn unpark(w: usize) {
    unsafe {
        let a = &WORD[w];
        a.store(1, SeqCst);
        sys6(202, a as *const _ as usize, 129, 1, 0, 0, 0);
    }
}
fn rt() -> &'static mut Rt {
    unsafe { RT.as_mut().unwrap_unchecked() }
}
fn finish_report(r: &Rt) {
    let s = shm();
    s.steps = r.steps;
    s.pts = r.pts;
    s.vtime = r.steps + r.clock_off;
}
/// stop the whole run with a verdict
pub fn conclude(v: u32, msg: &str) -> ! {
    let s = shm();
    s.verdict = v;
    s.set_message(msg);
    if unsafe { RT.is_some() } {
        finish_report(rt());
    }
    raw_exit(0)
}

impl Rt {
    fn ready(&self, t: usize) -> bool {
        t < self.n && self.st[t] == St::Ready
    }
    fn nready(&self) -> usize {
        (0..self.n).filter(|&t| self.st[t] == St::Ready).count()
    }
    fn other_ready(&mut self, cur: usize) -> Option<usize> {
        let (mut skip, rare) = match &self.strategy {
            Strategy::Rand { slow, .. } => (*slow & 0xff_ffff, (*slow >> 24).max(1) as u64),
            _ => (0, 1),
        };
        if skip != 0 {
            let others = (0..self.n).filter(|&t| t != cur && self.st[t] == St::Ready && skip >> t & 1 == 0).count();
            if others == 0 {
                // only slow ones wait: they get a turn now and then
                if skip >> cur & 1 == 0 && self.rng.below(rare) != 0 {
                    return None;
                }
                skip = 0;
            } else if self.rng.below(rare) == 0 {
                skip = 0;
            }
        }
        let c = (0..self.n).filter(|&t| t != cur && self.st[t] == St::Ready && skip >> t & 1 == 0).count();
        if c == 0 {
            return None;
        }
        let mut k = self.rng.below(c as u64) as usize;
        for t in 0..self.n {
            if t != cur && self.st[t] == St::Ready && skip >> t & 1 == 0 {
                if k == 0 {
                    return Some(t);
                }
                k -= 1;
            }
        }
        None
    }
    fn best(&self) -> Option<usize> {
        (0..self.n).filter(|&t| self.st[t] == St::Ready).max_by_key(|&t| self.prio[t])
    }
    /// voluntary decision at a point; None = stay
    fn choose(&mut self, kind: usize) -> Option<usize> {
        if self.n < 2 {
            return None;
        }
        let cur = self.cur;
        let pts = self.pts;
        match &self.strategy {
            Strategy::Serial { p_op } => {
                let p = *p_op;
                if kind == K_OP && self.rng.below(256) < p as u64 {
                    self.other_ready(cur)
                } else {
                    None
                }
            }
            Strategy::Rand { p_static, p_heap, p_edge, p_op, slow } => {
                let p = match kind {
                    K_STATIC if *slow >> cur & 1 != 0 => (*p_static).max(24576),
                    K_STATIC => *p_static,
                    K_HEAP => *p_heap,
                    K_OP => *p_op * 256,
                    _ => *p_edge,
                };
                if p != 0 && (self.rng.next() & 0xffff) < p as u64 {
                    self.other_ready(cur)
                } else {
                    None
                }
            }
            Strategy::Pct { changes, p_static } => {
                let mut hit = false;
                while self.nextchange < changes.len() && changes[self.nextchange] <= pts {
                    self.nextchange += 1;
                    hit = true;
                }
                let ps = *p_static;
                if !hit && kind == K_STATIC && ps != 0 && (self.rng.next() & 0xffff) < ps as u64 {
                    hit = true;
                }
                if hit {
                    self.lowprio -= 1;
                    self.prio[cur] = self.lowprio;
                    match self.best() {
                        Some(t) if t != cur => Some(t),
                        _ => None,
                    }
                } else {
                    None
                }
            }
            Strategy::Explicit { vol, .. } => {
                let mut res = None;
                while self.vidx < vol.len() && vol[self.vidx].0 <= pts {
                    if vol[self.vidx].0 == pts {
                        res = Some(vol[self.vidx].1 as usize);
                    }
                    self.vidx += 1;
                }
                match res {
                    Some(t) if t != cur && self.ready(t) => Some(t),
                    _ => None,
                }
            }
        }
    }
    /// pick the next task when the current one cannot continue
    fn pick_forced(&mut self) -> Option<usize> {
        if self.nready() == 0 {
            return None;
        }
        let cur = self.cur;
        let t = match &self.strategy {
            Strategy::Pct { .. } => self.best(),
            Strategy::Explicit { forced, .. } => {
                let f = forced.get(self.fidx).map(|&x| x as usize);
                match f {
                    Some(t) if self.ready(t) => Some(t),
                    _ => (0..self.n).map(|i| (cur + 1 + i) % self.n).find(|&t| self.st[t] == St::Ready),
                }
            }
            _ => {
                let c = self.nready() as u64;
                let k = self.rng.below(c) as usize;
                (0..self.n).filter(|&t| self.st[t] == St::Ready).nth(k)
            }
        };
        self.fidx += 1;
        t
    }
    fn record(&mut self, to: usize, forced: bool, kind: usize) {
        let s = shm();
        let i = s.nrec as usize;
        if i < MAXREC {
            s.rec[i] = Rec { at: self.pts, to: to as u8, forced: forced as u8 };
            s.nrec += 1;
        }
        s.trace = rng::mix(s.trace ^ (self.tpts[self.cur] << 8) ^ ((to as u64) << 4) ^ (kind as u64) ^ ((forced as u64) << 63));
    }
    fn switch(&mut self, to: usize) {
        let me = self.cur;
        if to == me {
            return;
        }
        self.cur = to;
        self.since = 0;
        shm().switches += 1;
        unpark(to);
        park(me);
    }
    /// the current task is no longer ready: give the baton away
    fn yield_forced(&mut self, kind: usize) {
        self.give_away(kind, true)
    }
    fn give_away(&mut self, kind: usize, stay: bool) {
        loop {
            // threads of the library may go on for ever: the run ends with its callers
            let over = !(0..self.n).any(|t| !self.library[t] && self.st[t] != St::Done);
            let next = if over { None } else { self.pick_forced() };
            if let Some(t) = next {
                self.record(t, true, kind);
                if stay {
                    self.switch(t);
                } else {
                    self.cur = t;
                    self.since = 0;
                    shm().switches += 1;
                    unpark(t);
                }
                return;
            }
            // nobody can run: let time pass, then resume stalled tasks, else it is a deadlock
            let dl = (0..self.n).filter(|&t| !over && self.st[t] == St::Blocked && self.deadline[t] != u64::MAX).min_by_key(|&t| self.deadline[t]);
            if let Some(t) = dl {
                let now = self.steps + self.clock_off;
                if self.deadline[t] > now {
                    self.clock_off += self.deadline[t] - now;
                }
                self.st[t] = St::Ready;
                self.woken[t] = false;
                continue;
            }
            let blocked = (0..self.n).any(|t| !self.library[t] && self.st[t] == St::Blocked);
            let stalled = (0..self.n).any(|t| self.st[t] == St::Stalled);
            if blocked && stalled && self.stall_mode {
                conclude(verdict::BLOCKED_BY_STALL, "a call waits for a suspended caller");
            }
            if stalled {
                for t in 0..self.n {
                    if self.st[t] == St::Stalled {
                        self.st[t] = St::Ready;
                    }
                }
                continue;
            }
            if blocked {
                conclude(verdict::DEADLOCK, "every unfinished call is blocked");
            }
            // all done
            finish_report(self);
            unpark(MAINW);
            if !stay {
                return;
            }
            loop {
                park(self.cur)
            }
        }
    }
    /// room for another task
    fn slot(&mut self) -> Option<usize> {
        let t = match (0..self.n).find(|&t| self.adopted[t] && self.st[t] == St::Done && self.handle[t] == 0) {
            Some(t) => t,
            None if self.n < MAXT => {
                self.n += 1;
                self.n - 1
            }
            None => return None,
        };
        self.adopted[t] = true;
        self.library[t] = false;
        self.faddr[t] = 0;
        self.deadline[t] = u64::MAX;
        self.woken[t] = false;
        self.opstart[t] = self.tsteps[t];
        self.oplimit[t] = u64::MAX / 2;
        self.prio[t] = self.rng.below(16000) as i64;
        WORD[t].store(0, SeqCst);
        Some(t)
    }
    /// whoever waits for task t to end may go on
    fn ended(&mut self, t: usize) {
        self.st[t] = St::Done;
        let key = &WORD[t] as *const _ as usize;
        for x in 0..self.n {
            if self.st[x] == St::Blocked && self.faddr[x] == key {
                self.st[x] = St::Ready;
                self.woken[x] = true;
            }
        }
    }
}

// ---------------------------------------------------------------- threads that the library starts
type Start = unsafe extern "C" fn(*mut u8) -> *mut u8;
extern "C" {
    fn dlsym(h: usize, name: *const u8) -> usize;
    fn __cxa_thread_atexit_impl(f: unsafe extern "C" fn(*mut u8), a: *mut u8, dso: *mut u8) -> i32;
    static __dso_handle: u8;
}
unsafe fn next_fn(name: &'static [u8], slot: &AtomicU64) -> usize {
    let mut f = slot.load(Relaxed) as usize;
    if f == 0 {
        f = dlsym(usize::MAX, name.as_ptr());
        slot.store(f as u64, Relaxed);
    }
    f
}
struct Child {
    t: usize,
    f: Start,
    arg: *mut u8,
}
unsafe extern "C" fn child_main(p: *mut u8) -> *mut u8 {
    let c = std::ptr::read(p as *mut Child);
    System.dealloc(p, Layout::new::<Child>());
    note_thread();
    park(c.t);
    TID.set(c.t as i32);
    // registered first, runs last: after every destructor of the thread's own variables
    __cxa_thread_atexit_impl(child_end, std::ptr::null_mut(), &__dso_handle as *const u8 as *mut u8);
    IN_LIB.set(true);
    let r = (c.f)(c.arg);
    IN_LIB.set(true);
    r
}
unsafe extern "C" fn child_end(_p: *mut u8) {
    IN_LIB.set(false);
    let t = TID.replace(-1) as usize;
    let r = rt();
    LIB_THREADS.fetch_sub(1, Relaxed);
    r.ended(t);
    r.give_away(K_OP, false);
}
/// a caller's thread that the scheduler does not know yet becomes known to it
fn adopt() -> bool {
    if TID.get() >= 0 {
        return true;
    }
    if unsafe { RT.is_none() } {
        init_rt(0, SchedCfg { seed: 1, strategy: Strategy::Serial { p_op: 0 }, stalls: vec![], op_limit: u64::MAX / 2, stall_mode: false });
        if STK.get().1 == 0 {
            note_main();
        }
    }
    match rt().slot() {
        Some(t) => {
            rt().st[t] = St::Ready;
            rt().cur = t;
            TID.set(t as i32);
            true
        }
        None => false,
    }
}
/// a thread of the harness begins, in a run in which the library may have threads of its own
pub fn harness_thread_begins() {
    note_thread();
    if unsafe { RT.is_some() } {
        adopt();
    }
}
/// ... and ends: the others stay where they are until the next call
pub fn harness_thread_ends() {
    if TID.get() >= 0 && unsafe { RT.is_some() } {
        let t = TID.replace(-1) as usize;
        let r = rt();
        if r.adopted[t] {
            r.ended(t);
        }
    }
}
/// rounding and handling of tiny numbers in force on this thread
pub fn fp_mode() -> u32 {
    let mut m = 0u32;
    unsafe { std::arch::asm!("stmxcsr [{}]", in(reg) &mut m, options(nostack)) };
    m & 0xffc0
}
/// open descriptors
pub fn open_files() -> u64 {
    (0..256).filter(|&fd| unsafe { sys6(72, fd, 1, 0, 0, 0, 0) } >= 0).count() as u64
}
/// threads started by the library that have not ended
pub fn lib_threads() -> u64 {
    LIB_THREADS.load(Relaxed) + LIB_TOO_MANY.load(Relaxed)
}
static LIB_TOO_MANY: AtomicU64 = AtomicU64::new(0);
/// memory of the process from the system's own allocator, in units of 16 KiB
pub fn system_memory() -> u64 {
    #[repr(C)]
    struct Info {
        f: [usize; 10],
    }
    extern "C" {
        fn mallinfo2() -> Info;
    }
    let i = unsafe { mallinfo2() };
    // in use in the arenas, and mapped
    (i.f[7] + i.f[4]) as u64 >> 14
}
static LIB_THREADS: AtomicU64 = AtomicU64::new(0);
#[no_mangle]
pub unsafe extern "C" fn pthread_create(th: *mut usize, attr: *const u8, f: Start, arg: *mut u8) -> i32 {
    static REAL: AtomicU64 = AtomicU64::new(0);
    let real: unsafe extern "C" fn(*mut usize, *const u8, Start, *mut u8) -> i32 = std::mem::transmute(next_fn(b"pthread_create\0", &REAL));
    if !simulated() {
        return real(th, attr, f, arg);
    }
    IN_LIB.set(false);
    let mut rc = 11; // EAGAIN
    let refused = ENV.on && ENV.entropy >> 11 & 3 == 0;
    env_hit(6, fault::NOTHREAD);
    if !refused && adopt() {
        if let Some(t) = rt().slot() {
            let c = System.alloc(Layout::new::<Child>()) as *mut Child;
            std::ptr::write(c, Child { t, f, arg });
            rc = real(th, attr, child_main, c as *mut u8);
            rt().library[t] = true;
            rt().st[t] = if rc == 0 { St::Ready } else { St::Done };
            rt().handle[t] = if rc == 0 { *th } else { 0 };
        }
    }
    if rc == 0 {
        LIB_THREADS.fetch_add(1, Relaxed);
        point(K_EDGE);
    } else if !refused {
        // no room for another one: the more of them are asked for, the more there would be
        LIB_TOO_MANY.fetch_add(1, Relaxed);
    }
    IN_LIB.set(true);
    rc
}
fn forget(th: usize) {
    let r = rt();
    for t in 0..r.n {
        if r.handle[t] == th {
            r.handle[t] = 0;
            return;
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn pthread_join(th: usize, ret: *mut *mut u8) -> i32 {
    static REAL: AtomicU64 = AtomicU64::new(0);
    let real: unsafe extern "C" fn(usize, *mut *mut u8) -> i32 = std::mem::transmute(next_fn(b"pthread_join\0", &REAL));
    if simulated() && RT.is_some() && TID.get() >= 0 {
        let r = rt();
        if let Some(x) = (0..r.n).find(|&x| r.handle[x] == th) {
            let me = TID.get() as usize;
            if r.st[x] != St::Done {
                r.st[me] = St::Blocked;
                r.faddr[me] = &WORD[x] as *const _ as usize;
                r.deadline[me] = u64::MAX;
                r.woken[me] = false;
                let il = IN_LIB.replace(false);
                r.yield_forced(K_EDGE);
                IN_LIB.set(il);
            }
            r.handle[x] = 0;
        }
    }
    real(th, ret)
}
#[no_mangle]
pub unsafe extern "C" fn pthread_detach(th: usize) -> i32 {
    static REAL: AtomicU64 = AtomicU64::new(0);
    let real: unsafe extern "C" fn(usize) -> i32 = std::mem::transmute(next_fn(b"pthread_detach\0", &REAL));
    if RT.is_some() {
        forget(th);
    }
    real(th)
}

#[inline(never)]
unsafe fn point(kind: usize) {
    let r = rt();
    let t = TID.get() as usize;
    if !r.active || t != r.cur {
        return;
    }
    r.pts += 1;
    r.tpts[t] += 1;
    shm().kinds[kind] += 1;
    if !r.stalls.is_empty() {
        let tp = r.tpts[t];
        if r.stalls.iter().any(|&(st, p)| st as usize == t && p == tp) && kind != K_OP {
            stall_now(r, t);
        }
    }
    if let Some(to) = r.choose(kind) {
        let k = if kind == K_OP { None } else { Some(()) };
        r.record(to, false, kind);
        if k.is_some() {
            fired(fault::PREEMPT);
        }
        let il = IN_LIB.replace(false);
        r.switch(to);
        IN_LIB.set(il);
    }
}
unsafe fn stall_now(r: &mut Rt, t: usize) {
    // only if somebody else can still make progress
    if (0..r.n).any(|o| o != t && (r.st[o] == St::Ready || r.st[o] == St::Blocked)) {
        fired(fault::STALL);
        r.st[t] = St::Stalled;
        let il = IN_LIB.replace(false);
        r.yield_forced(K_EDGE);
        IN_LIB.set(il);
    }
}
#[inline(always)]
unsafe fn step() -> bool {
    // returns false if nothing is to be decided
    let t = TID.get();
    if t < 0 {
        return false;
    }
    let r = rt();
    r.steps += 1;
    let t = t as usize;
    r.tsteps[t] += 1;
    r.since += 1;
    if r.tsteps[t] - r.opstart[t] > r.oplimit[t] {
        over_limit(r, t);
    }
    if r.since > 300_000 {
        r.since = 0;
        quantum(r, t);
    }
    true
}
#[cold]
fn over_limit(r: &mut Rt, t: usize) {
    conclude(verdict::UNBOUNDED, &format!("a call on thread {} used more than {} steps without finishing", t, r.oplimit[t]));
}
#[cold]
fn quantum(r: &mut Rt, t: usize) {
    if r.n < 2 || r.nready() < 2 {
        return;
    }
    r.lowprio -= 1;
    r.prio[t] = r.lowprio;
    // a spinning call must not starve the others: switch away, deterministically
    let to = (1..r.n).map(|i| (t + i) % r.n).find(|&x| r.st[x] == St::Ready);
    if let Some(to) = to {
        let il = IN_LIB.replace(false);
        r.record(to, false, K_STACK);
        r.switch(to);
        IN_LIB.set(il);
    }
}
/// accesses to variables of the thread
pub static mut TLS_HITS: u64 = 0;
#[inline(always)]
unsafe fn on_mem(a: usize) {
    if !IN_LIB.get() {
        return;
    }
    if !step() {
        return;
    }
    let (lo, hi) = STK.get();
    if a >= lo && a < hi {
        return;
    }
    let (tl, th) = TLSB.get();
    if a >= tl && a < th {
        TLS_HITS += (a != IN_LIB.as_ptr() as usize) as u64;
        return;
    }
    let k = if a >= &__data_start as *const u8 as usize && a < &_end as *const u8 as usize {
        K_STATIC
    } else if a.wrapping_sub(ARENA_BASE) < ARENA_LEN {
        K_HEAP
    } else {
        K_OTHER
    };
    point(k);
}
macro_rules! memcb { ($($n:ident),*) => { $( #[no_mangle] pub unsafe extern "C" fn $n(a: usize) { on_mem(a) } )* } }
memcb!(
    __sanitizer_cov_load1, __sanitizer_cov_load2, __sanitizer_cov_load4, __sanitizer_cov_load8, __sanitizer_cov_load16,
    __sanitizer_cov_store1, __sanitizer_cov_store2, __sanitizer_cov_store4, __sanitizer_cov_store8, __sanitizer_cov_store16
);
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *const u32) {
    if !IN_LIB.get() {
        return;
    }
    if !COV.is_null() {
        *COV.add((*g as usize) & (COVN - 1)) = 1;
    }
    if step() {
        point(K_EDGE);
    }
}

/// where the library's own statics are, from the symbols of this program: a read-modify-write of one is
/// no load and no store to the instrumentation
pub fn lib_statics() -> Vec<(usize, usize)> {
    let f = std::fs::read("/proc/self/exe").unwrap_or_default();
    let at = |o: usize, n: usize| -> usize { f.get(o..o + n).map_or(0, |b| b.iter().rev().fold(0, |a, &x| a << 8 | x as usize)) };
    let mut v = vec![];
    let (mut base, mut found) = (0usize, vec![]);
    let (sh, n) = (at(40, 8), at(60, 2));
    for i in 0..n {
        let s = sh + i * 64;
        if at(s + 4, 4) != 2 {
            continue;
        }
        let (off, size) = (at(s + 24, 8), at(s + 32, 8));
        let names = at(sh + at(s + 40, 4) * 64 + 24, 8);
        for k in 0..size / 24 {
            let e = off + k * 24;
            let name = names + at(e, 4);
            let name = f.get(name..).map_or(&b""[..], |b| &b[..b.iter().position(|&c| c == 0).unwrap_or(0)]);
            if name == b"__data_start" {
                base = unsafe { &__data_start as *const u8 as usize }.wrapping_sub(at(e + 8, 8));
            } else if at(e + 4, 1) & 15 == 1 && name.windows(5).any(|w| w == b"mazth") {
                found.push((at(e + 8, 8), at(e + 16, 8)));
            }
        }
    }
    let (lo, hi) = unsafe { (&__data_start as *const u8 as usize, &_end as *const u8 as usize) };
    for (a, n) in found {
        let a = a.wrapping_add(base);
        if base != 0 && n > 0 && n <= 1 << 20 && a >= lo && a + n <= hi {
            v.push((a, n));
        }
    }
    v
}
/// scheduling point outside library code (between calls, inside a participant's callback)
pub fn yield_point() {
    unsafe {
        if TID.get() >= 0 && RT.is_some() {
            let r = rt();
            r.steps += 1;
            point(K_OP);
        }
    }
}
/// suspend the current thread until nobody else can run
pub fn stall_here() {
    unsafe {
        if TID.get() >= 0 && RT.is_some() {
            stall_now(rt(), TID.get() as usize);
        }
    }
}
/// bound on the steps of the call that starts now
pub fn op_begin(limit: u64) {
    if TID.get() >= 0 && unsafe { RT.is_some() } {
        let r = rt();
        let t = TID.get() as usize;
        r.opstart[t] = r.tsteps[t];
        r.oplimit[t] = limit;
    }
    A_CNT.set(0);
}
/// (steps, points) of the current task so far
pub fn counters() -> (u64, u64) {
    if TID.get() >= 0 && unsafe { RT.is_some() } {
        let r = rt();
        let t = TID.get() as usize;
        (r.tsteps[t], r.tpts[t])
    } else {
        (0, 0)
    }
}
pub fn tid() -> i32 {
    TID.get()
}

fn init_rt(n: usize, c: SchedCfg) {
    let mut rng = Rng::new(c.seed);
    let mut prio = [0i64; MAXT];
    for (i, p) in prio.iter_mut().enumerate().take(10) {
        *p = (rng.below(1000) * 16 + i as u64) as i64;
    }
    unsafe {
        RT = Some(Rt {
            active: true,
            n,
            cur: 0,
            st: [St::Idle; MAXT],
            faddr: [0; MAXT],
            deadline: [u64::MAX; MAXT],
            woken: [false; MAXT],
            steps: 0,
            pts: 0,
            tsteps: [0; MAXT],
            tpts: [0; MAXT],
            opstart: [0; MAXT],
            oplimit: [c.op_limit; MAXT],
            since: 0,
            seed: c.seed,
            strategy: c.strategy,
            stalls: c.stalls,
            stall_mode: c.stall_mode,
            prio,
            lowprio: 0,
            nextchange: 0,
            fidx: 0,
            vidx: 0,
            rng,
            clock_off: 0,
            adopted: [false; MAXT],
            library: [false; MAXT],
            handle: [0; MAXT],
        });
    }
}

/// run one task on the calling thread
pub fn run_single(c: SchedCfg, f: impl FnOnce()) {
    init_rt(1, c);
    note_main();
    rt().st[0] = St::Ready;
    TID.set(0);
    f();
    TID.set(-1);
    finish_report(rt());
}
fn note_main() {
    let s = unsafe { MAIN_STK };
    if s.1 != 0 {
        STK.set(s);
        let fs = fs_base();
        TLSB.set((fs - 16384, fs + 4096));
    } else {
        note_thread();
    }
}
static mut MAIN_STK: (usize, usize) = (0, 0);
/// called once in the parent: remember the main thread's stack (looking it up is slow)
pub fn remember_main() {
    note_thread();
    let (lo, hi) = STK.get();
    unsafe { MAIN_STK = (lo.min(hi.saturating_sub(64 << 20)), hi) };
}

/// callers name their threads as they like
pub fn thread_name(t: usize) -> Option<String> {
    #[allow(static_mut_refs)]
    unsafe {
        let h = rng::mix(ENV.entropy ^ 0x7a3e ^ (t as u64) << 20);
        if !ENV.on || h & 1 == 0 {
            return None;
        }
        if h & 2 == 0 && !WORDS.is_empty() {
            let w = &WORDS[(h >> 8) as usize % WORDS.len()];
            return String::from_utf8(w[..w.len() - 1].to_vec()).ok().filter(|x| !x.contains('\0'));
        }
        Some(["main", "worker", "worker-1", "render", "io", ""][(h >> 8) as usize % 6].into())
    }
}
/// stack of the simulated threads (more where calls are nested far down)
pub static mut STACK: usize = 512 << 10;
/// run the tasks on threads of their own under the scheduler; the process is then ended by the caller
pub fn run_tasks(c: SchedCfg, tasks: Vec<Box<dyn FnOnce() + Send>>) {
    let n = tasks.len();
    init_rt(n, c);
    for (t, f) in tasks.into_iter().enumerate() {
        rt().st[t] = St::Ready;
        let mut b = std::thread::Builder::new().stack_size(unsafe { STACK });
        if let Some(n) = thread_name(t) {
            b = b.name(n);
        }
        b
            .spawn(move || {
                note_thread();
                park(t);
                TID.set(t as i32);
                f();
                let r = rt();
                r.st[t] = St::Done;
                IN_LIB.set(false);
                r.yield_forced(K_OP);
                loop {
                    park(t);
                }
            })
            .expect("spawn");
    }
    let r = rt();
    let first = r.pick_forced().unwrap();
    r.cur = first;
    r.record(first, true, K_OP);
    unpark(first);
    park(MAINW);
}
/// passing references to threads that outlive nothing: the process ends with the run
#[derive(Clone, Copy)]
pub struct Share0<T>(pub T);
unsafe impl<T> Sync for Share0<T> {}
unsafe impl<T> Send for Share0<T> {}
pub fn run_seed() -> u64 {
    rt().seed
}

// ---------------------------------------------------------------- simulated heap of the library
static mut ARENA_BASE: usize = 0;
const ARENA_LEN: usize = 256 << 20;
static ARENA_LOCK: AtomicU32 = AtomicU32::new(0);
struct Arena {
    top: usize,
    free: [usize; 320],
    live_bytes: i64,
    live_blocks: i64,
    total: u64,
}
static mut ARENA: Arena = Arena { top: 0, free: [0; 320], live_bytes: 0, live_blocks: 0, total: 0 };
pub fn init_arena() {
    unsafe {
        // reserved, never touched in the parent
        let p = mmap(0, ARENA_LEN, 3, 0x4022, -1, 0);
        assert!(p as isize != -1);
        ARENA_BASE = p as usize;
        ARENA.top = p as usize;
    }
}
/// shift where the simulated heap starts (answers must not depend on addresses)
pub fn arena_offset(off: usize) {
    unsafe { ARENA.top = ARENA_BASE + (off & 0xff_ffff & !15) };
}
pub fn live() -> (i64, i64, u64) {
    unsafe { (ARENA.live_bytes, ARENA.live_blocks, ARENA.total) }
}
fn class(sz: usize) -> (usize, usize) {
    let sz = sz.max(16);
    if sz <= 4096 {
        let c = sz.div_ceil(16);
        (c, c * 16)
    } else {
        let p = sz.next_power_of_two();
        (257 + p.trailing_zeros() as usize, p)
    }
}
fn lock() {
    while ARENA_LOCK.swap(1, SeqCst) != 0 {
        std::hint::spin_loop();
    }
}
fn unlock() {
    ARENA_LOCK.store(0, SeqCst);
}
/// hi of `fail_allocs`: of the sixteen allocations from lo on, those whose bits are set fail
pub const SOME_FAIL: u32 = 0xe000_0000;
/// hi of `fail_allocs`: from lo on, those of more bytes than this fail
pub const LARGE_FAIL: u32 = 0xd000_0000;
fn short_of_memory(i: u32, size: usize) -> bool {
    let (lo, hi) = (F_LO.get(), F_HI.get());
    if i < lo {
        return false;
    }
    match hi & 0xf000_0000 {
        SOME_FAIL => i - lo < 16 && hi >> (i - lo) & 1 == 1,
        LARGE_FAIL => size > (hi & 0xffff) as usize,
        _ => i < hi,
    }
}
unsafe fn sim_alloc(l: Layout) -> *mut u8 {
    let i = A_CNT.get();
    A_CNT.set(i + 1);
    if short_of_memory(i, l.size()) {
        fired(fault::OOM);
        OOM_HIT.set(OOM_HIT.get() + 1);
        return std::ptr::null_mut();
    }
    lock();
    let (c, sz) = class(l.size());
    let mut p = 0;
    if l.align() <= 16 && ARENA.free[c] != 0 {
        p = ARENA.free[c];
        ARENA.free[c] = *(p as *const usize);
    } else {
        let al = l.align().max(16);
        let t = (ARENA.top + al - 1) & !(al - 1);
        if t + sz <= ARENA_BASE + ARENA_LEN {
            ARENA.top = t + sz;
            p = t;
        }
    }
    if p != 0 {
        ARENA.live_bytes += l.size() as i64;
        ARENA.live_blocks += 1;
        ARENA.total += 1;
    }
    unlock();
    p as *mut u8
}
unsafe fn sim_free(p: *mut u8, l: Layout) {
    lock();
    let (c, sz) = class(l.size());
    // freed memory is scribbled over, so that a stale read shows
    std::ptr::write_bytes(p, 0xd5, sz.min(512));
    *(p as *mut usize) = ARENA.free[c];
    ARENA.free[c] = p as usize;
    ARENA.live_bytes -= l.size() as i64;
    ARENA.live_blocks -= 1;
    unlock();
}
pub struct SimHeap;
unsafe impl GlobalAlloc for SimHeap {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if IN_LIB.get() && ARENA_BASE != 0 {
            sim_alloc(l)
        } else {
            System.alloc(l)
        }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if (p as usize).wrapping_sub(ARENA_BASE) < ARENA_LEN && ARENA_BASE != 0 {
            sim_free(p, l)
        } else {
            System.dealloc(p, l)
        }
    }
}
#[global_allocator]
static HEAP: SimHeap = SimHeap;
pub struct OomMarker;
pub fn install_oom_hook() {
    std::alloc::set_alloc_error_hook(|_l| {
        IN_LIB.set(false);
        std::panic::panic_any(OomMarker)
    });
}
/// allocations lo..hi (counted from the start of the call) fail, or some of those from lo on
pub fn fail_allocs(lo: u32, hi: u32) {
    F_LO.set(lo);
    F_HI.set(hi);
}
pub fn oom_hits() -> u32 {
    OOM_HIT.get()
}
pub fn alloc_window() -> (u32, u32) {
    (F_LO.get(), F_HI.get())
}
pub fn set_alloc_count(n: u32) {
    A_CNT.set(n)
}
pub fn allocs_in_op() -> u32 {
    A_CNT.get()
}

// ---------------------------------------------------------------- simulated environment
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct EnvCfg {
    pub on: bool,
    pub clock_base: u64,
    /// 0 steady, 1 random jumps both ways, 2 frozen, 3 runs backwards
    pub clock_mode: u32,
    pub entropy: u64,
    /// entropy source: 0 works, 1 fails
    pub entropy_mode: u32,
    /// 0 nothing set, 1 every variable set to something
    pub env_mode: u32,
    /// writes: 0 ok, 1 EPIPE, 2 ENOSPC, 3 EIO, 4 short, 5 EBADF
    pub io_mode: u32,
    /// files: 0 absent, 1 cannot be opened (EMFILE, EACCES, EIO), 2 present with some content
    pub file_mode: u32,
    pub heap_off: u32,
}
pub const ENV0: EnvCfg =
    EnvCfg { on: false, clock_base: 1_600_000_000_000_000_000, clock_mode: 0, entropy: 1, entropy_mode: 0, env_mode: 0, io_mode: 0, file_mode: 0, heap_off: 0 };
pub static mut ENV: EnvCfg = ENV0;
/// put the simulated environment in force (in the child that is the run)
pub fn set_env(e: EnvCfg) {
    unsafe {
        ENV = e;
        arena_offset(e.heap_off as usize);
        if e.on && e.env_mode != 0 {
            // env::vars() walks the table itself
            static V: [&[u8]; 5] = [b"MAZTH_EPSILON=0.5\0", b"MAZTH_DEBUG=1\0", b"DEBUG=1\0", b"LANG=tr_TR\0", b"RUST_BACKTRACE=full\0"];
            let mut b: Vec<*const u8> = V.iter().map(|x| x.as_ptr()).collect();
            // names and values from the dictionary
            #[allow(static_mut_refs)]
            if !WORDS.is_empty() {
                for k in 0..24 {
                    let h = rng::mix(e.entropy ^ 0xe0 ^ k << 8);
                    let mut t = WORDS[h as u32 as usize % WORDS.len()].clone();
                    t.pop();
                    t.push(b'=');
                    t.extend_from_slice(&WORDS[(h >> 32) as usize % WORDS.len()]);
                    b.push(t.leak().as_ptr());
                }
            }
            b.push(std::ptr::null());
            environ = b.leak().as_ptr();
        } else {
            static NONE: [usize; 1] = [0];
            environ = NONE.as_ptr() as *const *const u8;
        }
        // the command line: what std::env::args() sees
        if !ARGV.is_null() && !(*ARGV).is_null() {
            static A: [&[u8]; 8] = [b"app\0", b"-v\0", b"--debug\0", b"--fast\0", b"0.5\0", b"/usr/bin/x\0", b"--test-threads=1\0", b"\xff\xfe\0"];
            let mut k = 0;
            while !(*ARGV.add(k)).is_null() {
                if e.on {
                    let h = rng::mix(e.entropy ^ 77 ^ k as u64);
                    *ARGV.add(k) = A[(h % 8) as usize].as_ptr();
                    #[allow(static_mut_refs)]
                    if !WORDS.is_empty() && h >> 40 & 1 == 1 {
                        *ARGV.add(k) = WORDS[(h >> 8) as u32 as usize % WORDS.len()].as_ptr();
                    }
                } else {
                    *ARGV.add(k) = A[0].as_ptr();
                }
                k += 1;
            }
        }
    }
}
static mut ARGV: *mut *const u8 = std::ptr::null_mut();
extern "C" fn keep_argv(_c: i32, v: *mut *const u8, _e: *const *const u8) {
    unsafe { ARGV = v }
}
#[used]
#[link_section = ".init_array.00098"]
static KEEP_ARGV: extern "C" fn(i32, *mut *const u8, *const *const u8) = keep_argv;
static ENV_CTR: AtomicU64 = AtomicU64::new(0);
fn env_hit(k: usize, f: usize) {
    unsafe {
        if !SHM.is_null() {
            (*SHM).env_hits[k] += 1;
            if ENV.on {
                fired(f);
            }
        }
    }
}
fn simulated() -> bool {
    IN_LIB.get()
}
fn now_ns() -> u64 {
    unsafe {
        let r = match RT.as_ref() {
            Some(r) => r.steps + r.clock_off,
            None => 0,
        };
        let k = ENV_CTR.fetch_add(1, Relaxed);
        match ENV.clock_mode {
            1 => ENV.clock_base.wrapping_add(rng::mix(ENV.entropy ^ k) % 4_000_000_000_000_000_000) & (u64::MAX >> 1),
            2 => ENV.clock_base,
            3 => ENV.clock_base.wrapping_sub(k * 1_000_003),
            _ => ENV.clock_base + r,
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(c: i32, ts: *mut i64) -> i32 {
    if simulated() {
        env_hit(0, fault::CLOCK);
        let t = now_ns();
        *ts = (t / 1_000_000_000) as i64;
        *ts.add(1) = (t % 1_000_000_000) as i64;
        return 0;
    }
    ret_errno(sys6(228, c as usize, ts as usize, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn gettimeofday(tv: *mut i64, tz: usize) -> i32 {
    if simulated() {
        env_hit(0, fault::CLOCK);
        let t = now_ns();
        *tv = (t / 1_000_000_000) as i64;
        *tv.add(1) = (t % 1_000_000_000 / 1000) as i64;
        return 0;
    }
    ret_errno(sys6(96, tv as usize, tz, 0, 0, 0, 0)) as i32
}
unsafe fn sim_sleep(ts: *const i64, abs: bool) -> i32 {
    env_hit(0, fault::CLOCK);
    if TID.get() >= 0 && RT.is_some() && rt().active {
        let r = rt();
        let t = TID.get() as usize;
        let d = (*ts as u64).wrapping_mul(1_000_000_000).wrapping_add(*ts.add(1) as u64);
        let now = r.steps + r.clock_off;
        r.deadline[t] = if abs { now } else { now.saturating_add(d) };
        r.faddr[t] = 0;
        r.st[t] = St::Blocked;
        let il = IN_LIB.replace(false);
        r.yield_forced(K_EDGE);
        IN_LIB.set(il);
        r.deadline[t] = u64::MAX;
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(ts: *const i64, rem: usize) -> i32 {
    if simulated() {
        return sim_sleep(ts, false);
    }
    ret_errno(sys6(35, ts as usize, rem, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(c: i32, fl: i32, ts: *const i64, rem: usize) -> i32 {
    if simulated() {
        return sim_sleep(ts, fl & 1 != 0);
    }
    -(sys6(230, c as usize, fl as usize, ts as usize, rem, 0, 0) as i32)
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if simulated() && TID.get() >= 0 && RT.is_some() {
        // a polite spinner: let somebody else run
        let r = rt();
        r.steps += 1;
        let t = TID.get() as usize;
        if r.active && t == r.cur {
            quantum(r, t);
        }
        return 0;
    }
    ret_errno(sys6(24, 0, 0, 0, 0, 0, 0)) as i32
}
unsafe fn sim_entropy(b: *mut u8, n: usize) -> i64 {
    env_hit(1, fault::ENTROPY);
    if ENV.entropy_mode == 1 {
        return -38; // ENOSYS
    }
    let mut r = Rng::new(ENV.entropy ^ (ENV_CTR.fetch_add(1, Relaxed) << 32));
    for i in 0..n {
        *b.add(i) = r.next() as u8;
    }
    n as i64
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(b: *mut u8, n: usize, fl: u32) -> isize {
    if simulated() {
        return ret_errno(sim_entropy(b, n)) as isize;
    }
    ret_errno(sys6(318, b as usize, n, fl as usize, 0, 0, 0)) as isize
}
extern "C" {
    static mut environ: *const *const u8;
}
unsafe fn real_getenv(name: *const u8) -> *const u8 {
    let mut e = environ;
    if e.is_null() {
        return std::ptr::null();
    }
    while !(*e).is_null() {
        let mut i = 0;
        while *name.add(i) != 0 && *name.add(i) == *(*e).add(i) {
            i += 1;
        }
        if *name.add(i) == 0 && *(*e).add(i) == b'=' {
            return (*e).add(i + 1);
        }
        e = e.add(1);
    }
    std::ptr::null()
}
/// values of variables (with a final zero), and contents of files, besides the usual ones
pub static mut WORDS: Vec<Vec<u8>> = Vec::new();
pub static mut TEXTS: Vec<Vec<u8>> = Vec::new();
#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const u8) -> *const u8 {
    if simulated() {
        env_hit(2, fault::ENVVAR);
        // (a stack too small to run on would not be a matter of the library)
        if ENV.env_mode == 0 || std::slice::from_raw_parts(name, 15) == b"RUST_MIN_STACK\0" {
            return std::ptr::null();
        }
        static VALS: [&[u8]; 16] = [
            b"1\0", b"0.5\0", b"true\0", b"full\0", b"-3\0", b"\0", b"0\0", b"off\0", b"on\0", b"yes\0", b"1e-3\0", b"debug\0", b"fast\0",
            b"7\0", b"NaN\0", b"\xff\xfe\0",
        ];
        // each name has a value of its own, or none
        let mut h = ENV.entropy;
        let mut i = 0;
        while *name.add(i) != 0 {
            h = rng::mix(h ^ *name.add(i) as u64);
            i += 1;
        }
        if !WORDS.is_empty() && h >> 40 & 3 == 0 {
            return WORDS[(h >> 8) as usize % WORDS.len()].as_ptr();
        }
        if h % 20 >= 16 {
            return std::ptr::null();
        }
        return VALS[(h % 20) as usize].as_ptr();
    }
    real_getenv(name)
}
unsafe fn sim_write(n: usize) -> i64 {
    env_hit(3, fault::STDIO);
    match ENV.io_mode {
        1 => -32,
        2 => -28,
        3 => -5,
        4 => (n as i64).min(1),
        5 => -9,
        _ => n as i64,
    }
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, b: *const u8, n: usize) -> isize {
    if simulated() {
        return ret_errno(sim_write(n)) as isize;
    }
    ret_errno(sys6(1, fd as usize, b as usize, n, 0, 0, 0)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: i32, iov: *const [usize; 2], n: i32) -> isize {
    if simulated() {
        let tot: usize = (0..n as usize).map(|i| (*iov.add(i))[1]).sum();
        return ret_errno(sim_write(tot)) as isize;
    }
    ret_errno(sys6(20, fd as usize, iov as usize, n as usize, 0, 0, 0)) as isize
}
/// the caller's input: nothing, an error, or some words
#[no_mangle]
pub unsafe extern "C" fn read(fd: i32, b: *mut u8, n: usize) -> isize {
    if fd == 0 && simulated() {
        env_hit(3, fault::STDIO);
        let k = ENV_CTR.fetch_add(1, Relaxed);
        return match ENV.io_mode {
            1 | 3 => ret_errno(-5) as isize,
            2 => ret_errno(-11) as isize,
            5 => ret_errno(-9) as isize,
            _ if !ENV.on || k % 4 == 3 => 0,
            _ => {
                #[allow(static_mut_refs)]
                let t: &[u8] = if TEXTS.is_empty() { b"y\n" } else { &TEXTS[(ENV.entropy >> 5) as usize % TEXTS.len()] };
                std::ptr::copy_nonoverlapping(t.as_ptr(), b, t.len().min(n));
                t.len().min(n) as isize
            }
        };
    }
    ret_errno(sys6(0, fd as usize, b as usize, n, 0, 0, 0)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn opendir(p: *const u8) -> usize {
    static REAL: AtomicU64 = AtomicU64::new(0);
    let real: unsafe extern "C" fn(*const u8) -> usize = std::mem::transmute(next_fn(b"opendir\0", &REAL));
    if simulated() {
        env_hit(4, fault::FILE);
        IN_LIB.set(false);
        let d = match ENV.file_mode {
            0 => 0,
            1 => 0,
            _ => real(b"/etc\0".as_ptr()),
        };
        IN_LIB.set(true);
        if d == 0 {
            *__errno_location() = if ENV.file_mode == 0 { 2 } else { 13 };
        }
        return d;
    }
    real(p)
}
#[no_mangle]
pub unsafe extern "C" fn getppid() -> i32 {
    if simulated() {
        env_hit(5, fault::ENVVAR);
        return if ENV.on { 1 + (ENV.entropy >> 20) as i32 % 30_000 } else { 4241 };
    }
    sys6(110, 0, 0, 0, 0, 0, 0) as i32
}
unsafe fn sim_open(p: *const u8) -> i32 {
    env_hit(4, fault::FILE);
    let head = std::ffi::CStr::from_ptr(p as *const _).to_bytes();
    if head == b"/dev/urandom" || head == b"/dev/random" {
        let mut fds = [0i32; 2];
        let mut b = [0u8; 256];
        if sim_entropy(b.as_mut_ptr(), b.len()) > 0 && sys6(22, fds.as_mut_ptr() as usize, 0, 0, 0, 0, 0) == 0 {
            sys6(1, fds[1] as usize, b.as_ptr() as usize, b.len(), 0, 0, 0);
            sys6(3, fds[1] as usize, 0, 0, 0, 0, 0);
            return fds[0];
        }
        return ret_errno(-2) as i32;
    }
    if ENV.file_mode == 2 {
        let mut fds = [0i32; 2];
        if sys6(22, fds.as_mut_ptr() as usize, 0, 0, 0, 0, 0) == 0 {
            let mut t: &[u8] = [&b"1\n"[..], &b"0.25\n"[..], &b"true\n"[..], &b"eps=0.5\n"[..]][(ENV.entropy % 4) as usize];
            if !TEXTS.is_empty() && ENV.entropy >> 32 & 1 == 0 {
                t = &TEXTS[(ENV.entropy >> 3) as usize % TEXTS.len()];
            }
            sys6(1, fds[1] as usize, t.as_ptr() as usize, t.len(), 0, 0, 0);
            sys6(3, fds[1] as usize, 0, 0, 0, 0, 0);
            return fds[0];
        }
    }
    let e = if ENV.file_mode == 0 { 2 } else { [24, 13, 5][(ENV.entropy % 3) as usize] };
    ret_errno(-e) as i32
}
unsafe fn sim_stat() -> i32 {
    env_hit(4, fault::FILE);
    match ENV.file_mode {
        0 => ret_errno(-2) as i32,
        1 => ret_errno(-13) as i32,
        _ => 0,
    }
}
#[no_mangle]
pub unsafe extern "C" fn statx(d: i32, p: *const u8, fl: i32, mask: u32, buf: *mut u8) -> i32 {
    if simulated() && !p.is_null() && *p != 0 {
        let r = sim_stat();
        if r == 0 {
            std::ptr::write_bytes(buf, 0, 256);
            *(buf as *mut u32) = 0x7ff;
            *(buf.add(28) as *mut u16) = 0o100644;
        }
        return r;
    }
    ret_errno(sys6(332, d as usize, p as usize, fl as usize, mask as usize, buf as usize, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn unlink(p: *const u8) -> i32 {
    if simulated() {
        return if sim_stat() == 0 { 0 } else { -1 };
    }
    ret_errno(sys6(87, p as usize, 0, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(p: *const u8, m: u32) -> i32 {
    if simulated() {
        env_hit(4, fault::FILE);
        return ret_errno(if ENV.on && ENV.file_mode == 2 { 0 } else { -13 }) as i32;
    }
    ret_errno(sys6(83, p as usize, m as usize, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const u8, b: *const u8) -> i32 {
    if simulated() {
        env_hit(4, fault::FILE);
        return ret_errno(if ENV.on && ENV.file_mode == 2 { 0 } else { -28 }) as i32;
    }
    ret_errno(sys6(82, a as usize, b as usize, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn access(p: *const u8, m: i32) -> i32 {
    if simulated() {
        return sim_stat();
    }
    ret_errno(sys6(21, p as usize, m as usize, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn isatty(fd: i32) -> i32 {
    if simulated() {
        env_hit(3, fault::STDIO);
        return (ENV.on && (ENV.entropy >> 7) & 1 == 1) as i32;
    }
    let mut b = [0u8; 64];
    (sys6(16, fd as usize, 0x5401, b.as_mut_ptr() as usize, 0, 0, 0) == 0) as i32
}
#[no_mangle]
pub unsafe extern "C" fn readlink(p: *const u8, b: *mut u8, n: usize) -> isize {
    if simulated() {
        env_hit(4, fault::FILE);
        if ENV.on && ENV.file_mode != 0 {
            return ret_errno(-2) as isize;
        }
        let mut t: Vec<u8> = b"/usr/bin/app".to_vec();
        let h = ENV.entropy.wrapping_mul(0x9e37_79b9_7f4a_7c15);
        if ENV.on && !WORDS.is_empty() && h >> 30 & 1 == 1 {
            let w = &WORDS[(h >> 8) as u32 as usize % WORDS.len()];
            t.truncate(9);
            t.extend_from_slice(&w[..w.len() - 1]);
        }
        std::ptr::copy_nonoverlapping(t.as_ptr(), b, t.len().min(n));
        return t.len().min(n) as isize;
    }
    ret_errno(sys6(89, p as usize, b as usize, n, 0, 0, 0)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn socket(d: i32, t: i32, p: i32) -> i32 {
    if simulated() {
        // no network here, for one reason or another
        env_hit(4, fault::FILE);
        return ret_errno(if ENV.on { -[24, 97, 1][(ENV.entropy % 3) as usize] } else { -97 }) as i32;
    }
    ret_errno(sys6(41, d as usize, t as usize, p as usize, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn getpid() -> i32 {
    if simulated() {
        env_hit(5, fault::ENVVAR);
        return if ENV.on { 2 + (ENV.entropy % 4_000_000) as i32 } else { 4242 };
    }
    sys6(39, 0, 0, 0, 0, 0, 0) as i32
}
#[no_mangle]
pub unsafe extern "C" fn getcwd(b: *mut u8, n: usize) -> *mut u8 {
    if simulated() {
        env_hit(5, fault::ENVVAR);
        if ENV.env_mode == 1 && ENV.entropy & 1 == 1 {
            *__errno_location() = 2;
            return std::ptr::null_mut();
        }
        let p: &[u8] = if ENV.env_mode == 0 { b"/\0" } else { b"/nowhere/else\0" };
        std::ptr::copy_nonoverlapping(p.as_ptr(), b, p.len().min(n));
        return b;
    }
    if sys6(79, b as usize, n, 0, 0, 0, 0) < 0 {
        return std::ptr::null_mut();
    }
    b
}
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(p: i32, n: usize, m: *mut u64) -> i32 {
    if simulated() {
        env_hit(5, fault::ENVVAR);
        std::ptr::write_bytes(m as *mut u8, 0, n);
        let k = if ENV.on { 1 + ENV.entropy % 60 } else { 4 };
        *m = (1u64 << k) - 1;
        return 0;
    }
    let r = sys6(204, p as usize, n, m as usize, 0, 0, 0);
    ret_errno(if r > 0 { 0 } else { r }) as i32
}
#[no_mangle]
pub unsafe extern "C" fn open64(p: *const u8, fl: i32, mode: u32) -> i32 {
    if simulated() {
        return sim_open(p);
    }
    ret_errno(sys6(257, -100isize as usize, p as usize, fl as usize, mode as usize, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn open(p: *const u8, fl: i32, mode: u32) -> i32 {
    open64(p, fl, mode)
}
// ---- the rest of what libc knows about the machine, for code that asks it directly
macro_rules! real {
    ($name:literal, $t:ty) => {{
        static REAL: AtomicU64 = AtomicU64::new(0);
        std::mem::transmute::<usize, $t>(next_fn(concat!($name, "\0").as_bytes(), &REAL))
    }};
}
fn some_number() -> u64 {
    let mut b = [0u8; 8];
    unsafe { sim_entropy(b.as_mut_ptr(), 8) };
    u64::from_le_bytes(b)
}
#[no_mangle]
pub unsafe extern "C" fn time(to: *mut i64) -> i64 {
    let mut ts = [0i64; 2];
    clock_gettime(0, ts.as_mut_ptr());
    if !to.is_null() {
        *to = ts[0];
    }
    ts[0]
}
#[no_mangle]
pub unsafe extern "C" fn clock() -> i64 {
    if simulated() {
        env_hit(0, fault::CLOCK);
        return (now_ns() / 1000) as i64;
    }
    real!("clock", unsafe extern "C" fn() -> i64)()
}
#[no_mangle]
pub unsafe extern "C" fn getrusage(who: i32, to: *mut i64) -> i32 {
    if simulated() {
        env_hit(0, fault::CLOCK);
        std::ptr::write_bytes(to, 0, 18);
        *to = (now_ns() / 1_000_000_000) as i64;
        return 0;
    }
    ret_errno(sys6(98, who as usize, to as usize, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn getloadavg(to: *mut f64, n: i32) -> i32 {
    if simulated() {
        env_hit(1, fault::ENTROPY);
        for i in 0..n.clamp(0, 3) {
            *to.add(i as usize) = (some_number() % 4096) as f64 / 256.0;
        }
        return n.clamp(0, 3);
    }
    real!("getloadavg", unsafe extern "C" fn(*mut f64, i32) -> i32)(to, n)
}
#[no_mangle]
pub unsafe extern "C" fn gethostname(to: *mut u8, n: usize) -> i32 {
    if simulated() {
        env_hit(5, fault::ENVVAR);
        let name: &[u8] = if !ENV.on {
            b"machine\0"
        } else if !WORDS.is_empty() && ENV.entropy >> 11 & 1 == 1 {
            &WORDS[(ENV.entropy >> 16) as usize % WORDS.len()]
        } else {
            [&b"localhost\0"[..], b"build-17\0", b"a\0"][(ENV.entropy >> 16) as usize % 3]
        };
        let k = name.len().min(n);
        std::ptr::copy_nonoverlapping(name.as_ptr(), to, k);
        return 0;
    }
    real!("gethostname", unsafe extern "C" fn(*mut u8, usize) -> i32)(to, n)
}
unsafe fn who(n: i64) -> u32 {
    if simulated() {
        env_hit(5, fault::ENVVAR);
        return if ENV.on { [0, 1000, 1001, 65534][(ENV.entropy >> 13) as usize % 4] } else { 1000 };
    }
    sys6(n, 0, 0, 0, 0, 0, 0) as u32
}
#[no_mangle]
pub unsafe extern "C" fn getuid() -> u32 {
    who(102)
}
#[no_mangle]
pub unsafe extern "C" fn geteuid() -> u32 {
    who(107)
}
#[no_mangle]
pub unsafe extern "C" fn rand() -> i32 {
    if simulated() {
        return (some_number() & 0x7fff_ffff) as i32;
    }
    real!("rand", unsafe extern "C" fn() -> i32)()
}
#[no_mangle]
pub unsafe extern "C" fn random() -> i64 {
    if simulated() {
        return (some_number() & 0x7fff_ffff) as i64;
    }
    real!("random", unsafe extern "C" fn() -> i64)()
}
#[no_mangle]
pub unsafe extern "C" fn drand48() -> f64 {
    if simulated() {
        return (some_number() >> 11) as f64 / (1u64 << 53) as f64;
    }
    real!("drand48", unsafe extern "C" fn() -> f64)()
}
#[no_mangle]
pub unsafe extern "C" fn sysconf(n: i32) -> i64 {
    if simulated() && (83..=86).contains(&n) {
        env_hit(5, fault::ENVVAR);
        let k = if ENV.on { 1 + ENV.entropy % 60 } else { 4 };
        return if n < 85 { k as i64 } else { k as i64 * 4096 };
    }
    real!("sysconf", unsafe extern "C" fn(i32) -> i64)(n)
}
#[no_mangle]
pub unsafe extern "C" fn sched_getcpu() -> i32 {
    if simulated() {
        env_hit(5, fault::ENVVAR);
        return if ENV.on { (some_number() % (1 + ENV.entropy % 60)) as i32 } else { 0 };
    }
    real!("sched_getcpu", unsafe extern "C" fn() -> i32)()
}

// ---- the counter of the processor is a clock, too: reading it traps
static mut OLD_SEGV: [usize; 19] = [0; 19];
unsafe extern "C" fn on_segv(sig: i32, info: *mut u8, uc: *mut u8) {
    let g = uc.add(40) as *mut u64;
    let ip = *g.add(16) as *const u8;
    let c = *(info.add(8) as *const i32);
    // (code 128: not a matter of an address, so the instruction can be looked at)
    if c == 128 && *ip == 0x0f {
        let len = if *ip.add(1) == 0x31 {
            2
        } else if *ip.add(1) == 0x01 && *ip.add(2) == 0xf9 {
            3
        } else {
            0
        };
        if len > 0 {
            let t = if simulated() {
                env_hit(0, fault::CLOCK);
                now_ns()
            } else {
                sys6(157, 26, 1, 0, 0, 0, 0);
                let t = std::arch::x86_64::_rdtsc();
                sys6(157, 26, 2, 0, 0, 0, 0);
                t
            };
            *g.add(13) = t & 0xffff_ffff;
            *g.add(12) = t >> 32;
            if len == 3 {
                *g.add(14) = 0;
            }
            *g.add(16) += len;
            return;
        }
    }
    let old = OLD_SEGV[0];
    if old > 1 {
        let f: unsafe extern "C" fn(i32, *mut u8, *mut u8) = std::mem::transmute(old);
        f(sig, info, uc);
    } else {
        let dfl = [0usize; 19];
        sigaction(11, dfl.as_ptr(), std::ptr::null_mut());
    }
}
extern "C" {
    fn sigaction(sig: i32, new: *const usize, old: *mut usize) -> i32;
}
/// once, at the start of the program
pub fn watch_counter() {
    unsafe {
        let mut a = [0usize; 19];
        a[0] = on_segv as *const () as usize;
        // flags: information, on the other stack
        *((a.as_mut_ptr() as *mut u8).add(136) as *mut i32) = 4 | 0x0800_0000;
        sigaction(11, a.as_ptr(), std::ptr::addr_of_mut!(OLD_SEGV) as *mut usize);
    }
}
/// the last resort of std: futexes and anything else that goes through syscall()
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    if n == 202 && TID.get() >= 0 && RT.is_some() && rt().active && rt().cur == TID.get() as usize {
        return ret_errno(sim_futex(a, b, c, d));
    }
    if simulated() {
        if n == 318 {
            return ret_errno(sim_entropy(a as *mut u8, b));
        }
        if n == 228 {
            return clock_gettime(a as i32, b as *mut i64) as i64;
        }
    }
    ret_errno(sys6(n, a, b, c, d, e, f))
}
unsafe fn sim_futex(addr: usize, op: usize, val: usize, timeout: usize) -> i64 {
    let r = rt();
    let t = TID.get() as usize;
    match op & 0x7f {
        0 | 9 => {
            let w = &*(addr as *const AtomicU32);
            if w.load(SeqCst) != val as u32 {
                return -11;
            }
            r.st[t] = St::Blocked;
            r.faddr[t] = addr;
            r.woken[t] = false;
            r.deadline[t] = u64::MAX;
            if timeout != 0 {
                let ts = timeout as *const i64;
                let ns = (*ts as u64).wrapping_mul(1_000_000_000).wrapping_add(*ts.add(1) as u64);
                let now = r.steps + r.clock_off;
                // absolute timeouts are on the simulated clock
                r.deadline[t] = if op & 0x7f == 9 { ns.saturating_sub(ENV.clock_base) } else { now.saturating_add(ns) };
            }
            let il = IN_LIB.replace(false);
            r.yield_forced(K_EDGE);
            IN_LIB.set(il);
            r.deadline[t] = u64::MAX;
            if r.woken[t] {
                0
            } else {
                -110
            }
        }
        1 | 10 => {
            let mut k = 0;
            for x in 0..r.n {
                if k as usize >= val {
                    break;
                }
                if r.st[x] == St::Blocked && r.faddr[x] == addr {
                    r.st[x] = St::Ready;
                    r.woken[x] = true;
                    k += 1;
                }
            }
            k
        }
        _ => -38,
    }
}

// ---------------------------------------------------------------- processes
extern "C" {
    fn fork() -> i32;
    fn waitpid(p: i32, st: *mut i32, fl: i32) -> i32;
    fn alarm(s: u32) -> u32;
    fn sched_setaffinity(p: i32, n: usize, m: *const u64) -> i32;
    fn personality(p: u64) -> i32;
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Exit {
    Code(i32),
    Signal(i32),
}
/// run f in a forked process that ends afterwards
pub fn in_child(secs: u32, f: impl FnOnce()) -> Exit {
    unsafe {
        let p = fork();
        if p < 0 {
            return Exit::Code(99);
        }
        if p == 0 {
            alarm(secs);
            sys6(157, 26, 2, 0, 0, 0, 0);
            f();
            raw_exit(0);
        }
        wait_pid(p)
    }
}
pub fn spawn_child(f: impl FnOnce()) -> i32 {
    unsafe {
        let p = fork();
        if p == 0 {
            f();
            raw_exit(0);
        }
        p
    }
}
pub fn wait_pid(p: i32) -> Exit {
    let mut st = 0i32;
    unsafe {
        while waitpid(p, &mut st, 0) < 0 {
            if *__errno_location() != 4 {
                return Exit::Code(98);
            }
        }
    }
    if st & 0x7f == 0 {
        Exit::Code((st >> 8) & 0xff)
    } else {
        Exit::Signal(st & 0x7f)
    }
}
pub fn cpus() -> Vec<usize> {
    let mut m = [0u64; 16];
    unsafe {
        if sched_getaffinity(0, 128, m.as_mut_ptr()) < 0 {
            return vec![];
        }
    }
    (0..1024).filter(|&i| m[i / 64] >> (i % 64) & 1 == 1).collect()
}
pub fn pin(cpu: usize) {
    let mut m = [0u64; 16];
    m[cpu / 64] |= 1 << (cpu % 64);
    unsafe {
        sched_setaffinity(0, 128, m.as_ptr());
    }
}
/// true if address randomisation is off for this process; otherwise try to switch it off (takes effect on exec)
pub fn aslr_off() -> bool {
    unsafe {
        let cur = personality(0xffff_ffff);
        if cur >= 0 && cur & 0x0040000 != 0 {
            return true;
        }
        if cur >= 0 {
            personality(cur as u64 | 0x0040000);
        }
        false
    }
}
