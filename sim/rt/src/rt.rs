//! The simulator: every source of nondeterminism the library meets is owned here.
//!
//! * `getrandom` is defined by this binary, so std seeds every `RandomState` from the run's seed.
//! * `syscall` is defined by this binary, so std's locks (futex waits and wakes) of simulated tasks
//!   are decided by the simulated scheduler; nothing runnable = deadlock, reported at once.
//! * the global allocator and every caller-code callback (`cb`) are scheduling points; callbacks are
//!   also crash points.
//! * tasks are real threads, exactly one of which runs at any time: the one the scheduler released.
use crate::rng::Rng;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, UnsafeCell};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU32, Ordering::*};

pub struct Racy<T>(UnsafeCell<T>);
unsafe impl<T> Sync for Racy<T> {}
impl<T> Racy<T> {
    pub const fn new(t: T) -> Self {
        Racy(UnsafeCell::new(t))
    }
    /// Sound only because one simulated task runs at a time.
    #[allow(clippy::mut_from_ref)]
    pub fn get(&self) -> &mut T {
        unsafe { &mut *self.0.get() }
    }
}

// ---------------------------------------------------------------- libc
extern "C" {
    fn __errno_location() -> *mut i32;
    pub fn fork() -> i32;
    pub fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    pub fn _exit(code: i32) -> !;
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn setrlimit(res: i32, lim: *const [u64; 2]) -> i32;
    fn personality(p: u64) -> i32;
    pub fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    pub fn alarm(s: u32) -> u32;
    fn mallopt(param: i32, value: i32) -> i32;
    fn dlsym(handle: isize, name: *const u8) -> *const u8;
}
unsafe fn raw_syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, out("rcx") _, out("r11") _);
    r
}
const SYS_FUTEX: i64 = 202;
fn futex_wait_raw(a: &AtomicU32, v: u32) {
    unsafe { raw_syscall(SYS_FUTEX, a as *const _ as i64, 128, v as i64, 0, 0, 0) };
}
fn futex_wake_raw(a: &AtomicU32) {
    unsafe { raw_syscall(SYS_FUTEX, a as *const _ as i64, 129, i32::MAX as i64, 0, 0, 0) };
}
/// Makes addresses repeat from process to process: re-executes this program without address randomisation.
pub fn fixed_addresses() {
    const NO_RANDOMIZE: u64 = 0x0040000;
    unsafe { mallopt(-8, 1) }; // one heap for all threads
    if std::env::var_os("SIM_FIXED_ADDRESSES").is_some() {
        return;
    }
    let now = unsafe { personality(0xffff_ffff) };
    if now < 0 || now as u64 & NO_RANDOMIZE != 0 || unsafe { personality(now as u64 | NO_RANDOMIZE) } < 0 {
        return;
    }
    use std::os::unix::process::CommandExt;
    let e = std::process::Command::new("/proc/self/exe").args(std::env::args_os().skip(1)).env("SIM_FIXED_ADDRESSES", "1").exec();
    eprintln!("re-execution: {}", e);
}
pub fn shared_mem(len: usize) -> *mut u8 {
    let p = unsafe { mmap(std::ptr::null_mut(), len, 3, 0x21, -1, 0) };
    assert!(p as isize != -1, "mmap");
    p
}

// ---------------------------------------------------------------- shared with the parent process
pub const MAXOPS: usize = 96;
pub const MAXSW: usize = 6000;
pub const NKIND: usize = 6;
pub const K_CLONE: usize = 0;
pub const K_EQ: usize = 1;
pub const K_HASH: usize = 2;
pub const K_LEX: usize = 3;
pub const K_SRC: usize = 4;
pub const K_SOLVER: usize = 5;

#[derive(Clone, Copy)]
#[repr(C)]
pub struct OpRec {
    pub done: u32,
    pub fired: u32,
    pub res: u64,
    pub log: u64,
    pub kinds: [u32; NKIND],
}
macro_rules! counters { ($($n:ident),*) => {
    #[allow(non_camel_case_types, dead_code)] #[derive(Clone, Copy, PartialEq, Eq)] #[repr(usize)]
    pub enum C { $($n),*, N_ }
    pub const COUNTER_NAMES: &[&str] = &[$(stringify!($n)),*];
}}
counters!(
    ops_executed, ops_again, ops_judged, vacuous_ops, parse_ok, parse_err, parse_fix, parse_panic, analyses, builds, builds_rejected,
    preemptions, preemptions_fine, yields, lock_waits, lock_deadlocks, hash_seedings, clock_reads,
    f_panic_symbol_clone, f_panic_symbol_eq, f_panic_symbol_hash, f_panic_lexeme_clone, f_panic_source, f_panic_solver,
    lib_threads, r_thread_per_call, r_supplied_sets, f_caller_slow, f_clock_stall, f_clock_jump, f_addresses_scattered,
    f_source_cut, f_source_loss, f_source_dup, f_source_reorder, f_source_corrupt, f_source_unknown, f_source_nonfused, f_source_odd_hint,
    f_reentrant_from_source, f_reentrant_from_solver, f_solver_refusal, f_solver_repair, f_solver_repair_past_end, f_solver_repair_backward,
    f_hash_collisions,
    r_backtracked, r_ambiguous_lookahead, r_deep_tree, r_long_stream, r_epsilon_leaf, r_left_recursive, r_nullable_chain,
    r_repeat_adjacent, r_useless_symbol, r_multi_failed, r_solver_consulted, r_overlapped_calls, r_big_grammar, r_solver_multi, r_solver_single
);
#[repr(C)]
pub struct Shm {
    pub status: u32,
    pub culprit: u32,
    pub stage: u32,
    pub signal: u32,
    pub viol_len: u32,
    pub text_len: u32,
    pub nsw: u32,
    pub trace: u64,
    pub order: u64,
    pub steps: u64,
    pub points: u64,
    pub sim_ns: u64,
    pub live: i64,
    pub ctr: [u64; C::N_ as usize],
    pub op: [OpRec; MAXOPS],
    pub sw: [(u64, u32); MAXSW],
    pub viol: [u8; 16384],
    pub text: [u8; 262144],
}
pub const ST_RUNNING: u32 = 0;
pub const ST_DONE: u32 = 1;
pub const ST_VIOL: u32 = 2;
pub const ST_HANG: u32 = 3;
pub const ST_DEADLOCK: u32 = 4;
pub const ST_HARNESS: u32 = 5;
pub const ST_ABORT: u32 = 6; // set by the parent: the process died of a signal
pub const ST_CPU: u32 = 7; // set by the parent: CPU limit

// ---------------------------------------------------------------- per task
pub struct OpCtx {
    pub op: u32,
    pub budget: u64,
    pub steps: Cell<u64>,
    pub kinds: [Cell<u32>; NKIND],
    pub crash_mask: u32,
    pub crash_left: Cell<u64>,
    pub fired: Cell<bool>,
    /// stack address at the call, and the furthest from it that caller code was reached
    pub sp0: Cell<usize>,
    pub stack: Cell<usize>,
    pub payload: Cell<*const ()>,
}
pub struct Tls {
    pub task: Cell<i32>,
    pub product: Cell<bool>,
    pub op: Cell<*const OpCtx>,
}
thread_local! {
    pub static TLS: Tls = const { Tls { task: Cell::new(-1), product: Cell::new(false), op: Cell::new(std::ptr::null()) } };
}
/// What an injected panic carries.
pub struct Injected(pub u32);

/// Callers, and threads the library starts.
pub const MAXT: usize = 160;
pub const MAXCALLERS: usize = 16;
#[derive(Clone, Copy, PartialEq)]
enum St {
    Held,
    Ready,
    Blocked,
    Done,
}
pub struct Run {
    shm: *mut Shm,
    hash_seed: u64,
    hash_ctr: u64,
    pub hash_mode: u32,
    callers: usize,
    n: usize, // callers and, after them, the slots of threads the library started
    st: [St; MAXT],
    thread: [u64; MAXT],
    addr: [usize; MAXT],
    timed: [bool; MAXT],
    timed_out: [bool; MAXT],
    cur: usize,
    rng: Rng,
    prob: u64,
    kindmask: u32,
    explicit: Option<Vec<(u64, u32)>>,
    xi: usize,
    point: u64,
    gap: u64,
    gap_left: u64,
    unbroken: u64,
    env: Rng, // of the clock and the allocator
    clock_ns: u64,
    realtime_skew_ns: i64,
    slow: bool,
    scatter: bool,
    pub live: [i64; MAXOPS],
    pub double_drop: u32,
    pub last_panic: String,
}
static RUN: Racy<Option<Run>> = Racy::new(None);
static GO: [AtomicU32; MAXT + 1] = [const { AtomicU32::new(0) }; MAXT + 1];
const MAIN: usize = MAXT;
static ACTIVE: AtomicU32 = AtomicU32::new(0);

pub fn run() -> &'static mut Run {
    RUN.get().as_mut().expect("no run")
}
pub fn shm() -> &'static mut Shm {
    unsafe { &mut *run().shm }
}
pub fn count(c: C, n: u64) {
    if RUN.get().is_some() {
        shm().ctr[c as usize] += n;
    }
}
pub fn die(status: u32, culprit: u32) -> ! {
    let s = shm();
    s.status = status;
    s.culprit = culprit;
    unsafe { _exit(0) }
}
pub fn violation(class: &str, msg: &str) -> ! {
    let s = shm();
    let t = format!("{}\n{}", class, msg);
    let b = t.as_bytes();
    let n = b.len().min(s.viol.len());
    s.viol[..n].copy_from_slice(&b[..n]);
    s.viol_len = n as u32;
    die(ST_VIOL, s.culprit)
}

pub struct SchedCfg {
    pub seed: u64,
    pub prob: u64,
    pub kindmask: u32,
    /// mean number of basic blocks and memory accesses between preemptions there; 0 = none there
    pub gap: u64,
    pub explicit: Option<Vec<(u64, u32)>>,
}
pub fn init(shm: *mut Shm, hash_seed: u64, hash_mode: u32, ntasks: usize, s: SchedCfg) {
    assert!((1..=MAXCALLERS).contains(&ntasks));
    *RUN.get() = Some(Run {
        shm,
        hash_seed,
        hash_ctr: 0,
        hash_mode,
        callers: ntasks,
        n: ntasks,
        st: [St::Held; MAXT],
        thread: [0; MAXT],
        addr: [0; MAXT],
        timed: [false; MAXT],
        timed_out: [false; MAXT],
        cur: 0,
        rng: Rng::new(s.seed),
        prob: s.prob,
        kindmask: s.kindmask,
        explicit: s.explicit,
        xi: 0,
        point: 0,
        gap: s.gap,
        gap_left: s.gap,
        unbroken: 0,
        clock_ns: 1 << 40,
        realtime_skew_ns: 1_700_000_000_000_000_000,
        slow: hash_seed & 0x30 == 0x30,
        scatter: hash_seed & 0x40 == 0x40,
        env: Rng::new(crate::rng::derive(hash_seed, 0xC10C)),
        live: [0; MAXOPS],
        double_drop: 0,
        last_panic: String::new(),
    });
    ACTIVE.store(1, SeqCst);
    FINE.store(ntasks > 1, SeqCst);
    if run().scatter {
        count(C::f_addresses_scattered, 1);
    }
    if hash_mode != 0 {
        count(C::f_hash_collisions, 1);
    }
}

// ---------------------------------------------------------------- scheduling
fn release(t: usize) {
    GO[t].store(1, Release);
    futex_wake_raw(&GO[t]);
}
fn wait_released(t: usize) {
    while GO[t].swap(0, Acquire) == 0 {
        futex_wait_raw(&GO[t], 0);
    }
}
fn record_switch(point: u64, to: usize) {
    let s = shm();
    if (s.nsw as usize) < MAXSW {
        s.sw[s.nsw as usize] = (point, to as u32);
        s.nsw += 1;
    }
    s.trace = crate::rng::mix(s.trace ^ (point << 8) ^ to as u64 ^ 0xABCD);
}
fn switch_to(me: usize, to: usize) {
    let r = run();
    r.cur = to;
    release(to);
    wait_released(me);
}
/// A voluntary scheduling point of the running task.
#[inline]
fn point(me: usize, kind: usize) {
    let r = run();
    if r.n == 1 {
        return;
    }
    r.unbroken = 0;
    r.point += 1;
    let mut to = me;
    if let Some(x) = &r.explicit {
        while r.xi < x.len() && x[r.xi].0 < r.point {
            r.xi += 1;
        }
        if r.xi < x.len() && x[r.xi].0 == r.point {
            to = x[r.xi].1 as usize;
            r.xi += 1;
        }
    } else if r.kindmask & (1 << kind) != 0 && r.rng.below(65536) < r.prob {
        to = r.rng.us(r.n);
    }
    if to != me && to < r.n && r.st[to] == St::Ready {
        record_switch(r.point, to);
        count(C::preemptions, 1);
        switch_to(me, to);
    }
}
static FINE: AtomicBool = AtomicBool::new(false);
/// A basic block or memory access that no other point interrupts for this long is a busy wait.
const UNBROKEN: u64 = 200_000;
/// In the instrumented build: a basic block is entered or memory is accessed.
#[cold]
#[inline(never)]
fn fine_point() {
    let _ = TLS.try_with(|t| {
        if !t.product.get() || t.task.get() < 0 {
            return;
        }
        t.product.set(false);
        let r = run();
        r.unbroken += 1;
        if r.unbroken > UNBROKEN {
            // nothing but memory is being looked at: whoever is waited for must get to run
            r.unbroken = 0;
            if (0..r.n).any(|k| k != r.cur && r.st[k] == St::Ready) {
                idle(1000);
            } else if let Some(c) = unsafe { t.op.get().as_ref() } {
                c.steps.set(c.steps.get() + 1);
            }
        }
        if r.gap > 0 {
            r.point += 1;
            let me = t.task.get() as usize;
            let mut to = me;
            if let Some(x) = &r.explicit {
                while r.xi < x.len() && x[r.xi].0 < r.point {
                    r.xi += 1;
                }
                if r.xi < x.len() && x[r.xi].0 == r.point {
                    to = x[r.xi].1 as usize;
                    r.xi += 1;
                }
            } else {
                r.gap_left -= 1;
                if r.gap_left == 0 {
                    r.gap_left = 1 + r.rng.below(2 * r.gap);
                    to = r.rng.us(r.n);
                }
            }
            if to != me && to < r.n && r.st[to] == St::Ready {
                record_switch(r.point, to);
                count(C::preemptions_fine, 1);
                switch_to(me, to);
            }
        }
        t.product.set(true);
    });
}
macro_rules! cov { ($($n:ident),*) => { $(
    #[no_mangle]
    pub extern "C" fn $n() {
        if FINE.load(Relaxed) {
            fine_point();
        }
    }
)* } }
cov!(__sanitizer_cov_trace_pc, __sanitizer_cov_load1, __sanitizer_cov_load2, __sanitizer_cov_load4, __sanitizer_cov_load8, __sanitizer_cov_load16,
    __sanitizer_cov_store1, __sanitizer_cov_store2, __sanitizer_cov_store4, __sanitizer_cov_store8, __sanitizer_cov_store16);
/// The running task cannot go on: someone else must. Returns the task chosen, None if nobody can run.
fn pick_other() -> Option<usize> {
    let r = run();
    r.point += 1;
    let ready: Vec<usize> = (0..r.n).filter(|t| r.st[*t] == St::Ready).collect();
    if ready.is_empty() {
        return None;
    }
    let mut to = ready[0];
    if let Some(x) = &r.explicit {
        while r.xi < x.len() && x[r.xi].0 < r.point {
            r.xi += 1;
        }
        if r.xi < x.len() && x[r.xi].0 == r.point {
            let c = x[r.xi].1 as usize;
            r.xi += 1;
            if ready.contains(&c) {
                to = c;
            }
        }
    } else {
        to = ready[r.rng.us(ready.len())];
    }
    record_switch(r.point, to);
    Some(to)
}
fn sim_futex(me: usize, addr: *const AtomicU32, op: i64, val: u32, timeout: bool) -> i64 {
    let r = run();
    match op & 0x7f {
        0 | 9 => {
            if unsafe { (*addr).load(SeqCst) } != val {
                return -11; // EAGAIN
            }
            count(C::lock_waits, 1);
            r.st[me] = St::Blocked;
            r.addr[me] = addr as usize;
            r.timed[me] = timeout;
            r.timed_out[me] = false;
            match pick_other() {
                Some(t) => switch_to(me, t),
                None => match (0..r.n).find(|t| r.st[*t] == St::Blocked && r.timed[*t]) {
                    Some(t) => {
                        r.st[t] = St::Ready;
                        r.timed_out[t] = true;
                        if t != me {
                            switch_to(me, t);
                        }
                    }
                    None if callers_done() => {
                        // what the library started waits for the next call
                        release(MAIN);
                        wait_released(me);
                    }
                    None => {
                        count(C::lock_deadlocks, 1);
                        die(ST_DEADLOCK, unsafe { TLS.with(|t| t.op.get().as_ref().map_or(u32::MAX, |o| o.op)) })
                    }
                },
            }
            if run().timed_out[me] {
                -110
            } else {
                0
            }
        }
        1 | 10 => {
            let mut woken = 0;
            let waiting: Vec<usize> = (0..r.n).filter(|t| r.st[*t] == St::Blocked && r.addr[*t] == addr as usize).collect();
            for t in waiting {
                if woken as u32 >= val {
                    break;
                }
                r.st[t] = St::Ready;
                woken += 1;
            }
            woken
        }
        _ => -38,
    }
}
/// Overrides libc's `syscall`: std's locks wait and wake through it.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let mut task = -1;
    if n == SYS_FUTEX && ACTIVE.load(Relaxed) == 1 {
        task = TLS.try_with(|t| t.task.get()).unwrap_or(-1);
    }
    let r = if task >= 0 {
        // the simulator's own allocations are no scheduling points
        harness(|| sim_futex(task as usize, a as *const AtomicU32, b, c as u32, d != 0 && (b & 0x7f == 0 || b & 0x7f == 9)))
    } else {
        raw_syscall(n, a, b, c, d, e, f)
    };
    if r < 0 && r > -4096 {
        *__errno_location() = (-r) as i32;
        return -1;
    }
    r
}
/// The caller's side of a call (source, solver) takes its time: simulated time only.
pub fn dawdle() {
    let r = run();
    let mut ns = 200 + r.env.below(800);
    if r.slow && r.env.pct(25) {
        let top = 20 + r.env.below(21);
        ns += r.env.below(1 << top); // up to some 18 minutes
        count(C::f_caller_slow, 1);
    }
    r.clock_ns += ns;
    shm().sim_ns += ns;
}
/// The clock as the library would read it: simulated time, with stalls, and jumps of the wall clock.
fn sim_clock(realtime: bool) -> u64 {
    let r = run();
    count(C::clock_reads, 1);
    let mut ns = 50 + r.env.below(2000);
    if r.env.pct(5) {
        count(C::f_clock_stall, 1);
        let top = 20 + r.env.below(23);
        ns += r.env.below(1 << top);
    }
    r.clock_ns += ns;
    shm().sim_ns += ns;
    if !realtime {
        return r.clock_ns;
    }
    if r.env.pct(10) {
        count(C::f_clock_jump, 1);
        r.realtime_skew_ns += r.env.below(1 << 50) as i64 - (1 << 49);
    }
    (r.clock_ns as i64 + r.realtime_skew_ns).max(0) as u64
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clock: i32, ts: *mut [i64; 2]) -> i32 {
    if ACTIVE.load(Relaxed) == 1 && TLS.try_with(|t| t.product.get() && t.task.get() >= 0).unwrap_or(false) {
        let ns = harness(|| sim_clock(clock == 0 || clock == 5));
        *ts = [(ns / 1_000_000_000) as i64, (ns % 1_000_000_000) as i64];
        return 0;
    }
    raw_syscall(228, clock as i64, ts as i64, 0, 0, 0, 0) as i32
}
/// Lets the threads the library started run until they have nothing left to do.
fn settle() {
    let r = run();
    for _ in 0..2_000 {
        if !(r.callers..r.n).any(|t| r.st[t] == St::Ready) || !idle(1000) {
            break;
        }
    }
}
/// A task that yields or sleeps lets the scheduler choose; no simulated task ever waits for real time.
fn idle(ns: u64) -> bool {
    if ACTIVE.load(Relaxed) != 1 {
        return false;
    }
    let me = TLS.try_with(|t| t.task.get()).unwrap_or(-1);
    if me < 0 {
        return false;
    }
    let op = TLS.with(|t| unsafe { t.op.get().as_ref() });
    if let Some(c) = op {
        c.steps.set(c.steps.get() + 1);
        if c.steps.get() > c.budget {
            die(ST_HANG, c.op);
        }
    }
    count(C::yields, 1);
    run().clock_ns += ns;
    shm().sim_ns += ns;
    harness(|| {
        run().st[me as usize] = St::Held;
        let to = pick_other();
        run().st[me as usize] = St::Ready;
        if let Some(t) = to {
            switch_to(me as usize, t);
        }
    });
    true
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if !idle(1000) {
        raw_syscall(24, 0, 0, 0, 0, 0, 0);
    }
    0
}
unsafe fn ns_of(ts: *const u8) -> u64 {
    let t = *(ts as *const [i64; 2]);
    (t[0].clamp(0, 1 << 30) * 1_000_000_000 + t[1].clamp(0, 1_000_000_000)) as u64
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(a: *const u8, b: *mut u8) -> i32 {
    if !idle(ns_of(a)) {
        raw_syscall(35, a as i64, b as i64, 0, 0, 0, 0);
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clock: i32, flags: i32, a: *const u8, b: *mut u8) -> i32 {
    if !idle(ns_of(a)) {
        raw_syscall(230, clock as i64, flags as i64, a as i64, b as i64, 0, 0);
    }
    0
}
/// Overrides libc's `getrandom`: std seeds `RandomState` through it.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, flags: u32) -> isize {
    if ACTIVE.load(Relaxed) == 1 {
        let r = run();
        r.hash_ctr += 1;
        count(C::hash_seedings, 1);
        let mut g = Rng::new(crate::rng::derive(r.hash_seed, r.hash_ctr));
        for i in 0..len {
            *buf.add(i) = g.next() as u8;
        }
        return len as isize;
    }
    raw_syscall(318, buf as i64, len as i64, flags as i64, 0, 0, 0) as isize
}
pub struct Alloc;
/// Bytes allocated and not freed in this process.
pub static LIVE: AtomicI64 = AtomicI64::new(0);
unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let scatter = alloc_point();
        LIVE.fetch_add(l.size() as i64, Relaxed);
        if scatter && l.size() <= 1024 {
            // which of two addresses is taken is the run's choice
            let (a, b) = (System.alloc(l), System.alloc(l));
            let (a, b) = if run().env.pct(50) { (a, b) } else { (b, a) };
            System.dealloc(b, l);
            return a;
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        alloc_point();
        LIVE.fetch_add(l.size() as i64, Relaxed);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        alloc_point();
        LIVE.fetch_add(n as i64 - l.size() as i64, Relaxed);
        System.realloc(p, l, n)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as i64, Relaxed);
        System.dealloc(p, l)
    }
}
#[inline]
fn alloc_point() -> bool {
    if ACTIVE.load(Relaxed) != 1 {
        return false;
    }
    TLS.try_with(|t| {
        if t.product.get() && t.task.get() >= 0 && !std::thread::panicking() {
            t.product.set(false);
            let c = unsafe { &*t.op.get() };
            c.steps.set(c.steps.get() + 1);
            shm().steps += 1;
            if c.steps.get() > c.budget {
                die(ST_HANG, c.op);
            }
            point(t.task.get() as usize, NKIND);
            t.product.set(true);
            run().scatter
        } else {
            false
        }
    })
    .unwrap_or(false)
}

/// Caller code is being run by the library: a scheduling point and a crash point.
#[inline]
pub fn cb(kind: usize) {
    TLS.with(|t| {
        if !t.product.get() {
            return;
        }
        t.product.set(false);
        let c = unsafe { &*t.op.get() };
        let s = shm();
        s.steps += 1;
        s.points += 1;
        s.culprit = c.op;
        c.steps.set(c.steps.get() + 1);
        c.kinds[kind].set(c.kinds[kind].get() + 1);
        let here = &s as *const _ as usize;
        c.stack.set(c.stack.get().max(c.sp0.get().saturating_sub(here)));
        let task = t.task.get() as usize;
        s.trace = crate::rng::mix(s.trace ^ ((kind as u64) << 4) ^ (task as u64 + 1));
        if c.steps.get() > c.budget {
            die(ST_HANG, c.op);
        }
        if c.crash_left.get() > 0 && c.crash_mask & (1 << kind) != 0 && !std::thread::panicking() {
            c.crash_left.set(c.crash_left.get() - 1);
            if c.crash_left.get() == 0 {
                c.fired.set(true);
                s.ctr[C::f_panic_symbol_clone as usize + kind] += 1;
                let op = c.op;
                t.product.set(true);
                std::panic::resume_unwind(Box::new(Injected(op)));
            }
        }
        if !std::thread::panicking() {
            point(task, kind);
        }
        t.product.set(true);
    })
}
/// Runs harness code inside a callback (nothing in it is a scheduling or crash point).
pub fn harness<R>(f: impl FnOnce() -> R) -> R {
    TLS.with(|t| {
        let p = t.product.replace(false);
        let r = f();
        t.product.set(p);
        r
    })
}
pub enum Ended<R> {
    Value(R),
    Injected(u32),
    Panic(String),
}
/// Runs library code as operation `ctx.op` of the current task; nests.
pub fn call<R>(ctx: &OpCtx, f: impl FnOnce() -> R) -> Ended<R> {
    let here = 0u8;
    ctx.sp0.set(std::hint::black_box(&here) as *const u8 as usize);
    let (op0, prod0) = TLS.with(|t| (t.op.replace(ctx), t.product.replace(true)));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    TLS.with(|t| {
        t.op.set(op0);
        t.product.set(false);
    });
    let out = match r {
        Ok(v) => Ended::Value(v),
        Err(e) => match e.downcast_ref::<Injected>() {
            Some(i) => Ended::Injected(i.0),
            None => Ended::Panic(run().last_panic.clone()),
        },
    };
    TLS.with(|t| t.product.set(prod0));
    out
}
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let t = format!("{} at {}", m, loc);
        let prod = TLS.with(|t| t.task.get() >= 0);
        if prod {
            if RUN.get().is_some() {
                run().last_panic = t;
            }
        } else {
            eprintln!("harness panic: {}", t);
        }
    }));
}

fn callers_done() -> bool {
    let r = run();
    (0..r.callers).all(|t| r.st[t] == St::Done)
}
/// A task is over: whoever is left goes on.
fn leave() {
    let r = run();
    if callers_done() {
        return release(MAIN);
    }
    match pick_other() {
        Some(t) => {
            r.cur = t;
            release(t);
        }
        None => match (0..r.n).find(|t| r.st[*t] == St::Blocked && r.timed[*t]) {
            Some(t) => {
                r.st[t] = St::Ready;
                r.timed_out[t] = true;
                release(t);
            }
            None => die(ST_DEADLOCK, u32::MAX),
        },
    }
}

// ---------------------------------------------------------------- threads the library starts
type Start = extern "C" fn(*mut u8) -> *mut u8;
struct Begin {
    slot: usize,
    start: Start,
    arg: *mut u8,
    ctx: OpCtx,
}
unsafe fn real(name: &'static str) -> *const u8 {
    let f = dlsym(-1, name.as_ptr());
    assert!(!f.is_null());
    f
}
fn in_product() -> Option<usize> {
    if ACTIVE.load(Relaxed) != 1 {
        return None;
    }
    TLS.try_with(|t| if t.product.get() && t.task.get() >= 0 { Some(t.task.get() as usize) } else { None }).unwrap_or(None)
}
extern "C" fn lib_thread(b: *mut u8) -> *mut u8 {
    let b = unsafe { &*(b as *const Begin) }; // kept: it may outlive the call that started it
    wait_released(b.slot);
    let here = 0u8;
    b.ctx.sp0.set(std::hint::black_box(&here) as *const u8 as usize);
    TLS.with(|t| {
        t.task.set(b.slot as i32);
        t.op.set(&b.ctx);
        t.product.set(true);
    });
    let r = (b.start)(b.arg);
    TLS.with(|t| {
        t.product.set(false);
        t.task.set(-1);
    });
    let run = run();
    run.st[b.slot] = St::Done;
    for t in 0..run.n {
        if run.st[t] == St::Blocked && run.addr[t] == &GO[b.slot] as *const _ as usize {
            run.st[t] = St::Ready;
        }
    }
    // nobody goes on before this thread is really gone, its thread-locals destroyed and its stack given back
    LEAVING.store(unsafe { raw_syscall(186, 0, 0, 0, 0, 0, 0) } as u32, Release);
    futex_wake_raw(&LEAVING);
    r
}
static LEAVING: AtomicU32 = AtomicU32::new(0);
static REAPER: AtomicBool = AtomicBool::new(false);
extern "C" fn reaper(_: *mut u8) -> *mut u8 {
    loop {
        let tid = LEAVING.swap(0, Acquire);
        if tid == 0 {
            futex_wait_raw(&LEAVING, 0);
            continue;
        }
        unsafe {
            let pid = raw_syscall(39, 0, 0, 0, 0, 0, 0);
            while raw_syscall(234, pid, tid as i64, 0, 0, 0, 0) == 0 {
                raw_syscall(24, 0, 0, 0, 0, 0, 0);
            }
        }
        leave();
    }
}
/// Runs caller code on a thread started for it, which is a task of the simulation while it lives.
pub fn on_new_thread(f: impl FnOnce() + Send) {
    let cx = OpCtx {
        op: u32::MAX,
        budget: u64::MAX,
        steps: Cell::new(0),
        kinds: Default::default(),
        crash_mask: 0,
        crash_left: Cell::new(0),
        fired: Cell::new(false),
        sp0: Cell::new(0),
        stack: Cell::new(0),
        payload: Cell::new(std::ptr::null()),
    };
    let (op0, prod0) = TLS.with(|t| (t.op.replace(&cx), t.product.get()));
    std::thread::scope(|s| {
        TLS.with(|t| t.product.set(true));
        let h = std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(s, || harness(f));
        let ended = h.unwrap_or_else(|_| die(ST_HARNESS, 0)).join();
        TLS.with(|t| t.product.set(false));
        if ended.is_err() {
            die(ST_HARNESS, 0);
        }
    });
    TLS.with(|t| {
        t.op.set(op0);
        t.product.set(prod0);
    });
}
/// A thread started by the library becomes a task of the simulation.
#[no_mangle]
pub unsafe extern "C" fn pthread_create(id: *mut u64, attr: *const u8, start: Start, arg: *mut u8) -> i32 {
    let create: extern "C" fn(*mut u64, *const u8, Start, *mut u8) -> i32 = std::mem::transmute(real("pthread_create\0"));
    if in_product().is_none() {
        return create(id, attr, start, arg);
    }
    harness(|| {
        let r = run();
        let slot = (r.callers..r.n).find(|t| r.st[*t] == St::Done).unwrap_or(r.n);
        if slot == MAXT {
            return 11;
        }
        if !REAPER.swap(true, SeqCst) {
            let mut t = 0;
            assert!(create(&mut t, std::ptr::null(), reaper, std::ptr::null_mut()) == 0);
        }
        let c = TLS.with(|t| &*t.op.get());
        let b = Begin {
            slot,
            start,
            arg,
            ctx: OpCtx {
                op: c.op,
                budget: c.budget.max(20_000_000),
                steps: Cell::new(0),
                kinds: Default::default(),
                crash_mask: 0,
                crash_left: Cell::new(0),
                fired: Cell::new(false),
                sp0: Cell::new(0),
                stack: Cell::new(0),
                payload: Cell::new(std::ptr::null()),
            },
        };
        let e = create(id, attr, lib_thread, Box::into_raw(Box::new(b)) as *mut u8);
        if e == 0 {
            if c.op != u32::MAX {
                count(C::lib_threads, 1);
            }
            LIVE.fetch_sub(std::mem::size_of::<Begin>() as i64, Relaxed);
            r.n = r.n.max(slot + 1);
            r.st[slot] = St::Ready;
            r.thread[slot] = *id;
            FINE.store(true, SeqCst);
        }
        e
    })
}
#[no_mangle]
pub unsafe extern "C" fn pthread_join(id: u64, out: *mut *mut u8) -> i32 {
    let join: extern "C" fn(u64, *mut *mut u8) -> i32 = std::mem::transmute(real("pthread_join\0"));
    if let Some(me) = in_product() {
        harness(|| {
            let r = run();
            if let Some(k) = (r.callers..r.n).find(|k| r.thread[*k] == id && r.st[*k] != St::Done) {
                r.st[me] = St::Blocked;
                r.addr[me] = &GO[k] as *const _ as usize;
                r.timed[me] = false;
                r.timed_out[me] = false;
                let t = match pick_other() {
                    Some(t) => t,
                    None => match (0..r.n).find(|t| r.st[*t] == St::Blocked && r.timed[*t]) {
                        Some(t) => {
                            r.st[t] = St::Ready;
                            r.timed_out[t] = true;
                            t
                        }
                        None => die(ST_DEADLOCK, TLS.with(|t| t.op.get().as_ref().map_or(u32::MAX, |o| o.op))),
                    },
                };
                switch_to(me, t);
            }
        });
    }
    join(id, out)
}
/// What else a process could look at: which process it is, how many processors there are, its environment,
/// its user, its working directory, where its output goes.
#[no_mangle]
pub unsafe extern "C" fn getpid() -> i32 {
    if in_product().is_some() {
        return harness(|| 2 + (crate::rng::derive(run().hash_seed, 0x91D) % 4_000_000) as i32);
    }
    raw_syscall(39, 0, 0, 0, 0, 0, 0) as i32
}
#[no_mangle]
pub unsafe extern "C" fn getppid() -> i32 {
    if in_product().is_some() {
        return harness(|| 1 + (crate::rng::derive(run().hash_seed, 0x99D) % 4_000_000) as i32);
    }
    raw_syscall(110, 0, 0, 0, 0, 0, 0) as i32
}
#[no_mangle]
pub unsafe extern "C" fn getuid() -> u32 {
    if in_product().is_some() {
        return harness(|| 1000 * (crate::rng::derive(run().hash_seed, 0x81D) % 3) as u32);
    }
    raw_syscall(102, 0, 0, 0, 0, 0, 0) as u32
}
#[no_mangle]
pub unsafe extern "C" fn geteuid() -> u32 {
    if in_product().is_some() {
        return getuid();
    }
    raw_syscall(107, 0, 0, 0, 0, 0, 0) as u32
}
#[no_mangle]
pub unsafe extern "C" fn isatty(fd: i32) -> i32 {
    let is = if in_product().is_some() {
        harness(|| crate::rng::derive(run().hash_seed, 0x771 + fd as u64) % 2 == 0)
    } else {
        let mut termios = [0u64; 16];
        raw_syscall(16, fd as i64, 0x5401, termios.as_mut_ptr() as i64, 0, 0, 0) == 0
    };
    if !is {
        *__errno_location() = 25;
    }
    is as i32
}
/// The name of this machine or of the working directory: one of a few.
unsafe fn name(salt: u64, names: &[&str], buf: *mut u8, len: usize) -> bool {
    let n = names[harness(|| crate::rng::derive(run().hash_seed, salt)) as usize % names.len()];
    if n.len() + 1 > len {
        *__errno_location() = 34;
        return false;
    }
    std::ptr::copy_nonoverlapping(n.as_ptr(), buf, n.len());
    *buf.add(n.len()) = 0;
    true
}
#[no_mangle]
pub unsafe extern "C" fn getcwd(buf: *mut u8, len: usize) -> *mut u8 {
    if in_product().is_some() && !buf.is_null() {
        return if name(0xC3D, &["/", "/home/user", "/tmp", "/home/user/project/target/debug"], buf, len) { buf } else { std::ptr::null_mut() };
    }
    static REAL: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    if REAL.load(Relaxed) == 0 {
        REAL.store(real("getcwd\0") as usize, Relaxed);
    }
    let f: extern "C" fn(*mut u8, usize) -> *mut u8 = std::mem::transmute(REAL.load(Relaxed));
    f(buf, len)
}
#[no_mangle]
pub unsafe extern "C" fn gethostname(buf: *mut u8, len: usize) -> i32 {
    if in_product().is_some() {
        return if name(0x405, &["localhost", "build-7", "a"], buf, len) { 0 } else { -1 };
    }
    static REAL: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    if REAL.load(Relaxed) == 0 {
        REAL.store(real("gethostname\0") as usize, Relaxed);
    }
    let f: extern "C" fn(*mut u8, usize) -> i32 = std::mem::transmute(REAL.load(Relaxed));
    f(buf, len)
}
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: i32, len: usize, mask: *mut u8) -> i32 {
    if in_product().is_some() {
        let n = 1 + (crate::rng::derive(run().hash_seed, 0xC9) % 16) as usize;
        for i in 0..len {
            *mask.add(i) = if n >= 8 * (i + 1) { 0xff } else if n > 8 * i { (1u32 << (n - 8 * i)).wrapping_sub(1) as u8 } else { 0 };
        }
        return 0;
    }
    let r = raw_syscall(204, pid as i64, len as i64, mask as i64, 0, 0, 0);
    if r < 0 {
        *__errno_location() = (-r) as i32;
        return -1;
    }
    std::ptr::write_bytes(mask.add(r as usize), 0, len - r as usize);
    0
}
#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const u8) -> *const u8 {
    static VALUES: [&str; 4] = ["1\0", "0\0", "\0", "true\0"];
    if in_product().is_some() && !std::ffi::CStr::from_ptr(name as *const _).to_bytes().starts_with(b"RUST_") {
        let k = crate::rng::derive(run().hash_seed, 0xE9) as usize % 8;
        return VALUES.get(k).map_or(std::ptr::null(), |v| v.as_ptr());
    }
    static REAL: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    if REAL.load(Relaxed) == 0 {
        REAL.store(real("getenv\0") as usize, Relaxed);
    }
    let f: extern "C" fn(*const u8) -> *const u8 = std::mem::transmute(REAL.load(Relaxed));
    f(name)
}

/// Runs the tasks under the scheduler; `boot` runs first, alone, on task 0's thread.
pub fn run_tasks(boot: impl FnOnce() + Send + 'static, tasks: Vec<Box<dyn FnOnce() + Send>>) {
    let n = tasks.len();
    assert_eq!(n, run().n);
    let mut boot: Option<Box<dyn FnOnce() + Send>> = Some(Box::new(boot));
    for (i, f) in tasks.into_iter().enumerate() {
        let b = if i == 0 { boot.take() } else { None };
        let named = match crate::rng::derive(run().hash_seed, 0x7A3E) % 4 {
            0 => std::thread::Builder::new().name("main".into()),
            1 => std::thread::Builder::new().name(format!("worker-{}", i)),
            _ => std::thread::Builder::new(),
        };
        named
            .stack_size(if n == 1 { 512 << 20 } else if n <= 6 { 256 << 20 } else { 64 << 20 })
            .spawn(move || {
                drop(std::hint::black_box(Box::new(i)));
                release(MAIN);
                wait_released(i);
                TLS.with(|t| t.task.set(i as i32));
                run().st[i] = St::Ready;
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    if let Some(b) = b {
                        b();
                        let r = run();
                        for t in 0..r.callers {
                            r.st[t] = St::Ready;
                        }
                    }
                    f();
                    let r = run();
                    if (0..r.callers).all(|t| t == i || r.st[t] == St::Done) {
                        settle();
                    }
                }));
                if r.is_err() {
                    // a bug of the harness itself, never a verdict
                    let m = run().last_panic.clone();
                    eprintln!("harness panic in task {}: {}", i, m);
                    die(ST_HARNESS, 0);
                }
                TLS.with(|t| t.task.set(-1));
                run().st[i] = St::Done;
                leave();
                // the thread stays parked: thread exit would run outside the schedule
                loop {
                    futex_wait_raw(&GO[i], 0);
                    std::thread::park();
                }
            })
            .expect("spawn");
        wait_released(MAIN); // one after the other: where their memory lies is to repeat
    }
    release(0);
    wait_released(MAIN);
}

/// Forks; the child runs `f` with the shared record and must end in `die`/`violation`/return.
pub fn forked(shm: *mut Shm, f: impl FnOnce()) -> u32 {
    unsafe {
        std::ptr::write_bytes(shm as *mut u8, 0, std::mem::offset_of!(Shm, sw));
        (*shm).viol_len = 0;
        (*shm).text_len = 0;
        let pid = fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            prctl(1, 9, 0, 0, 0); // die with the parent
            setrlimit(0, &[60, 65]); // CPU seconds: last resort against loops without scheduling points
            setrlimit(4, &[0, 0]); // no core files
            setrlimit(9, &[4 << 30, 4 << 30]); // address space
            alarm(300); // blocked outside the simulator: an error of the harness (SIGALRM)
            f();
            if (*shm).status == ST_RUNNING {
                (*shm).status = ST_DONE;
            }
            _exit(0);
        }
        let mut st = 0i32;
        while waitpid(pid, &mut st, 0) < 0 {}
        let sig = st & 0x7f;
        if sig == 24 {
            (*shm).status = ST_CPU;
        } else if sig == 14 || sig == 9 {
            (*shm).status = ST_HARNESS;
        } else if sig != 0 {
            (*shm).status = ST_ABORT;
            (*shm).signal = sig as u32;
        } else if (st >> 8) & 0xff != 0 {
            (*shm).status = ST_HARNESS;
        }
        (*shm).status
    }
}
