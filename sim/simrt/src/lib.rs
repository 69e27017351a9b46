//! Simulation runtime. Everything in here is uninstrumented and owns the seams: which thread
//! runs, the allocator, futexes, clocks, sleeping, thread creation, entropy, environment.
//!
//! Threads are real OS threads, but exactly one holds the token at any time; the token moves
//! only where this file says so, and where it says so is decided by one seeded generator or
//! by a recorded trace. All state below is touched by the token holder only.
#![feature(alloc_error_hook)]
#![allow(static_mut_refs)]
#![allow(clippy::missing_safety_doc)]

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::HashMap;
use std::collections::VecDeque;
use std::ffi::c_void;
use std::sync::atomic::{AtomicU32, Ordering};

pub mod rng;
pub use rng::Rng;

pub const MAX_TASKS: usize = 256;
pub const NONE32: u32 = u32::MAX;
pub const NEVER: u64 = u64::MAX;

// ---------------------------------------------------------------- verdicts of a run
pub const V_INCOMPLETE: u32 = 0; // child died before it could say anything
pub const V_DONE: u32 = 1; // all threads finished or are stalled
pub const V_DEADLOCK: u32 = 2; // somebody waits and nobody can run
pub const V_OVERRUN: u32 = 3; // a call exceeded its own step bound
pub const V_HEAP: u32 = 4; // double free, wrong layout, overflow past the block
pub const V_LIMIT: u32 = 5; // harness limits (too many tasks, output area full)

// ---------------------------------------------------------------- statistics
pub const ST_STEPS: usize = 0;
pub const ST_SWITCH: usize = 1;
pub const ST_HOT: usize = 2;
pub const ST_ALLOCS: usize = 3;
pub const ST_ALLOC_FAIL: usize = 4;
pub const ST_STALL: usize = 5;
pub const ST_FUTEX_WAIT: usize = 6;
pub const ST_FUTEX_WAKE: usize = 7;
pub const ST_CLOCK: usize = 8;
pub const ST_ENV: usize = 9;
pub const ST_ENTROPY: usize = 10;
pub const ST_RNG_OVERRIDE: usize = 11;
pub const ST_RNG_FAIL: usize = 12;
pub const ST_SPAWN: usize = 13;
pub const ST_REALLOC_MOVE: usize = 14;
pub const ST_STALE: usize = 15; // blocks handed out with previous contents
pub const ST_FILLED: usize = 16; // blocks handed out with an adversarial fill
pub const ST_SLEEP: usize = 17;
pub const ST_NCPU: usize = 18;
pub const ST_HOT_SHARED: usize = 19;
pub const ST_FORCED: usize = 20;
pub const ST_OPS: usize = 21;
pub const ST_OPS_FAILED: usize = 22;
pub const ST_TLS: usize = 23;
pub const ST_SYS: usize = 24; // process number, working directory, files
pub const ST_STACK: usize = 25; // calls started on a stack with adversarial contents
pub const ST_WRITE: usize = 26; // stores to writable statics and thread-local variables
pub const ST_USER0: usize = 32; // property specific, named by the harness
pub const N_STATS: usize = 64;

#[repr(C)]
pub struct Shm {
    pub verdict: u32,
    pub v_task: u32,
    pub v_op: u32,
    pub v_aux: u32,
    pub v_step: u64,
    pub n_out: u64,
    pub n_trace: u64,
    pub sim_ns: u64,
    pub trace_hash: u64,
    pub live_blocks: i64,
    pub live_bytes: i64,
    pub note_len: u64,
    pub note: [u8; 4096],
    pub stats: [u64; N_STATS],
    pub n_hot: u64,
    pub hot: [u64; 256],
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
#[repr(C)]
pub struct TraceEnt {
    pub task: u16,
    pub next: u16,
    pub op: u32,
    pub step: u64,
    pub forced: u64,
}

pub const TRACE_CAP: usize = 200_000;
pub const OUT_CAP: usize = 48 << 20;
pub const COV_CAP: usize = 65536;
pub const DICT_CAP: usize = 4096;

pub struct Areas {
    pub shm: *mut Shm,
    pub trace: *mut TraceEnt,
    pub out: *mut u8,
    pub cov: *mut u8,     // 1 edge hit, 2 preempted there; survives runs of one worker
    pub dict: *mut u64,   // constants the code compares with, while somebody listens
}

pub static mut AREAS: Areas = Areas {
    shm: std::ptr::null_mut(),
    trace: std::ptr::null_mut(),
    out: std::ptr::null_mut(),
    cov: std::ptr::null_mut(),
    dict: std::ptr::null_mut(),
};

// ---------------------------------------------------------------- configuration of a run
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Policy {
    pub kind: u8, // 0 serial, 1 random walk, 2 priorities with change points, 3 lockstep
    pub mean: u64,
    pub p_hot: u32,   // per 1000, at accesses to writable statics and stores to shared operands
    pub p_begin: u32, // per 1000, at the start of a call
    pub p_alloc: u32, // per 1000, at allocations
    pub max_switches: u64,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct EnvCfg {
    pub fill: u8,  // 0 stale, 1 zero, 2 ones, 3 0xA5, 4 pseudo random
    pub reuse: u8, // 0 never, 1 LIFO
    pub poison_free: bool,
    pub realloc_move: bool,
    pub clock_base: u64,
    pub clock_jump: u8, // 0 steady, 1 forward jumps, 2 jumps both ways, 3 frozen
    pub getenv: u8,     // 0 unset, 1 "1", 2 "0", 3 garbage
    pub ncpu: u32,
    pub entropy: u64,
    pub rng_mode: u8, // see rng_override
    pub rng_arg: u64,
    pub skew: u32, // shifts every heap address and the thread numbering
}

impl EnvCfg {
    pub fn plain() -> EnvCfg {
        EnvCfg {
            fill: 1, reuse: 0, poison_free: false, realloc_move: false, clock_base: 1_700_000_000_000_000_000,
            clock_jump: 0, getenv: 0, ncpu: 4, entropy: 1, rng_mode: 0, rng_arg: 0, skew: 0,
        }
    }
}

pub struct RunCfg {
    pub seed: u64,
    pub policy: Policy,
    pub env: EnvCfg,
    pub replay: Option<Vec<TraceEnt>>,
}

#[derive(Clone, Copy)]
pub struct OpCfg {
    pub id: u32,
    pub step_limit: u64,
    pub fail_at: u64,
    pub fail_persist: bool,
    pub stall_at: u64,
    /// stop for ever `stall_delta` steps after the n-th access to writable statics
    pub stall_hot: u64,
    pub stall_delta: u64,
}

#[derive(Clone, Copy, Default, Debug)]
pub struct OpStat {
    pub steps: u64,
    pub allocs: u64,
    pub failed: u32,
    pub hots: u64,
    /// thread-local accesses, and questions to the clock, environment, entropy and thread machinery
    pub odd: u64,
}

// ---------------------------------------------------------------- tasks
#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Free,
    Coord,
    Runnable,
    Futex,
    Sleep,
    Join,
    Stalled,
    Exiting,
    Finished,
}

struct Task {
    gate: AtomicU32,
    state: St,
    op: u32,
    op_step: u64,
    counted: u64,
    stop_at: u64,
    preempt_at: u64,
    slice_end: u64,
    step_limit: u64,
    stall_at: u64,
    stall_hot: u64,
    stall_delta: u64,
    hots: u64,
    tls: u64,
    draws: u64,
    all_draws: u64,
    odd_from: u64,
    allocs: u64,
    fail_at: u64,
    fail_persist: bool,
    fail_off: bool,
    failed: u32,
    prio: u64,
    last_guard: u32,
    wait_addr: usize,
    wait_mask: u32,
    wait_seq: u64,
    deadline: u64,
    timed_out: bool,
    join_target: usize,
    user_joined: bool,
    retval: *mut c_void,
    pth: u64,
    handle: u64,
    queue: VecDeque<(u64, bool, u16)>,
}

const NEW_TASK: Task = Task {
    gate: AtomicU32::new(0),
    state: St::Free,
    op: NONE32,
    op_step: 0,
    counted: 0,
    stop_at: NEVER,
    preempt_at: NEVER,
    slice_end: NEVER,
    step_limit: NEVER,
    stall_at: NEVER,
    stall_hot: NEVER,
    stall_delta: 0,
    hots: 0,
    tls: 0,
    draws: 0,
    all_draws: 0,
    odd_from: 0,
    allocs: 0,
    fail_at: NEVER,
    fail_persist: false,
    fail_off: false,
    failed: 0,
    prio: 0,
    last_guard: 0,
    wait_addr: 0,
    wait_mask: 0,
    wait_seq: 0,
    deadline: NEVER,
    timed_out: false,
    join_target: 0,
    user_joined: false,
    retval: std::ptr::null_mut(),
    pth: 0,
    handle: 0,
    queue: VecDeque::new(),
};

const SLICE_LIMIT: u64 = 150_000;

struct Sim {
    tasks: [Task; MAX_TASKS],
    n: usize,
    cur: usize,
    reap: i32,
    rng: Rng,
    env_rng: Rng,
    policy: Policy,
    env: EnvCfg,
    replay: Option<HashMap<(u16, u32), VecDeque<(u64, bool, u16)>>>,
    switches: u64,
    gsteps: u64,
    clk_extra: u64,
    clk_back: u64,
    seq: u64,
    rng_draws: u64,
    entropy: Rng,
    low_prio: u64,
    handles: u64,
}

static mut S: *mut Sim = std::ptr::null_mut();
static mut CUR: *mut Task = std::ptr::null_mut();

thread_local! {
    static ME: Cell<i32> = const { Cell::new(-1) };
    static ACTIVE: Cell<bool> = const { Cell::new(false) };
    static TO_REGION: Cell<bool> = const { Cell::new(false) };
}

#[inline]
fn shm() -> &'static mut Shm {
    unsafe { &mut *AREAS.shm }
}

#[inline]
pub fn stat(i: usize, d: u64) {
    unsafe {
        if !AREAS.shm.is_null() {
            shm().stats[i] += d;
        }
    }
}

// ---------------------------------------------------------------- raw system calls
pub unsafe fn sys6(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, out("rcx") _, out("r11") _, options(nostack));
    r
}

unsafe fn gate_open(t: *const Task) {
    (*t).gate.store(1, Ordering::Release);
    sys6(202, &(*t).gate as *const _ as i64, 1 | 128, 1, 0, 0, 0);
}

unsafe fn gate_wait(t: *const Task) {
    loop {
        if (*t).gate.compare_exchange(1, 0, Ordering::AcqRel, Ordering::Acquire).is_ok() {
            return;
        }
        sys6(202, &(*t).gate as *const _ as i64, 128, 0, 0, 0, 0);
    }
}

pub fn exit_now(code: i32) -> ! {
    unsafe {
        sys6(231, code as i64, 0, 0, 0, 0, 0);
    }
    unreachable!()
}

pub fn set_note(s: &str) {
    let b = s.as_bytes();
    let n = b.len().min(4096);
    shm().note[..n].copy_from_slice(&b[..n]);
    shm().note_len = n as u64;
}

/// Ends the run at once, from whichever thread holds the token.
pub fn finish(verdict: u32, aux: u32) -> ! {
    unsafe {
        let h = shm();
        if !S.is_null() {
            let s = &mut *S;
            let t = &mut s.tasks[s.cur];
            h.v_task = s.cur as u32;
            h.v_op = t.op;
            h.v_step = t.op_step;
            account(s);
            h.stats[ST_STEPS] = s.gsteps;
            h.stats[ST_SWITCH] = s.switches;
            h.sim_ns = s.gsteps + s.clk_extra;
        }
        h.v_aux = aux;
        h.live_blocks = HEAP.live_blocks;
        h.live_bytes = HEAP.live_bytes;
        h.verdict = verdict;
    }
    exit_now(0)
}

// ---------------------------------------------------------------- scheduling
unsafe fn account(s: &mut Sim) {
    let t = &mut s.tasks[s.cur];
    s.gsteps += t.op_step - t.counted;
    t.counted = t.op_step;
}

#[inline]
unsafe fn recompute_stop(t: &mut Task) {
    t.stop_at = t.preempt_at.min(t.stall_at).min(t.step_limit).min(t.slice_end);
}

unsafe fn arm(s: &mut Sim, i: usize) {
    // Decide how far task i may run before the scheduler looks again.
    let t = &mut s.tasks[i];
    t.slice_end = t.op_step + SLICE_LIMIT;
    if s.replay.is_some() {
        t.preempt_at = NEVER;
        for &(st, forced, _) in t.queue.iter() {
            if !forced && st > t.op_step {
                t.preempt_at = st;
                break;
            }
            if !forced && st == t.op_step {
                t.preempt_at = st + 1; // handled at this very step or passed
                break;
            }
        }
    } else if s.switches >= s.policy.max_switches {
        t.preempt_at = NEVER;
    } else {
        t.preempt_at = match s.policy.kind {
            0 => NEVER,
            3 => t.op_step + s.policy.mean.max(1),
            _ => t.op_step + 1 + s.rng.geometric(s.policy.mean),
        };
    }
    recompute_stop(t);
}

unsafe fn log_switch(s: &mut Sim, from: usize, next: usize, forced: bool) {
    let t = &s.tasks[from];
    let h = shm();
    let e = TraceEnt { task: from as u16, next: next as u16, op: t.op, step: t.op_step, forced: forced as u64 };
    if (h.n_trace as usize) < TRACE_CAP {
        *AREAS.trace.add(h.n_trace as usize) = e;
        h.n_trace += 1;
    }
    let mut x = h.trace_hash ^ ((from as u64) << 56) ^ ((next as u64) << 48) ^ ((t.op as u64) << 24) ^ t.op_step;
    x = x.wrapping_mul(0x9E3779B97F4A7C15);
    h.trace_hash = x ^ (x >> 29);
    if !forced {
        let g = t.last_guard as usize;
        if g < COV_CAP {
            *AREAS.cov.add(g) |= 2;
        }
    }
}

/// Tasks that could run; no heap, because this is used while a call is being simulated.
struct Cand {
    a: [std::mem::MaybeUninit<usize>; MAX_TASKS],
    n: usize,
}

impl std::ops::Deref for Cand {
    type Target = [usize];
    fn deref(&self) -> &[usize] {
        // SAFETY: the first n were written
        unsafe { std::slice::from_raw_parts(self.a.as_ptr() as *const usize, self.n) }
    }
}

unsafe fn runnable_but(s: &Sim, me: usize) -> Cand {
    let mut v = Cand { a: [const { std::mem::MaybeUninit::uninit() }; MAX_TASKS], n: 0 };
    for i in 1..s.n {
        if i != me && s.tasks[i].state == St::Runnable {
            v.a[v.n].write(i);
            v.n += 1;
        }
    }
    v
}

unsafe fn runnable(s: &Sim) -> Cand {
    runnable_but(s, 0)
}

/// Takes the next recorded decision for the running task if it is for this very point.
unsafe fn recorded(s: &mut Sim, forced: bool) -> Option<usize> {
    let cur = s.cur;
    let t = &mut s.tasks[cur];
    while let Some(&(st, f, nx)) = t.queue.front() {
        if st < t.op_step {
            t.queue.pop_front();
            continue;
        }
        if st == t.op_step && f == forced {
            t.queue.pop_front();
            return Some(nx as usize);
        }
        if st == t.op_step && f != forced {
            // a voluntary decision recorded here but the task is being forced away (or the
            // other way round): look past it
            if let Some(pos) = t.queue.iter().position(|&(a, b, _)| a == t.op_step && b == forced) {
                let (_, _, nx) = t.queue.remove(pos).unwrap();
                return Some(nx as usize);
            }
        }
        return None;
    }
    None
}

unsafe fn choose(s: &mut Sim, cand: &[usize], forced: bool) -> usize {
    if s.replay.is_some() {
        let d = recorded(s, forced);
        if let Some(n) = d {
            if cand.contains(&n) {
                return n;
            }
        }
        return cand[0];
    }
    match s.policy.kind {
        2 => *cand.iter().max_by_key(|&&i| s.tasks[i].prio).unwrap(),
        3 => {
            let c = s.cur;
            *cand.iter().find(|&&i| i > c).unwrap_or(&cand[0])
        }
        _ => cand[s.rng.below(cand.len() as u64) as usize],
    }
}

unsafe fn go(s: &mut Sim, to: usize) {
    let me = s.cur;
    if to == me {
        return;
    }
    account(s);
    s.switches += 1;
    s.cur = to;
    CUR = &mut s.tasks[to];
    let mine: *const Task = &s.tasks[me];
    gate_open(&s.tasks[to]);
    gate_wait(mine);
    // running again
    arm(&mut *S, me);
}

/// The running task gives up the token of its own accord.
unsafe fn preempt(s: &mut Sim) {
    let me = s.cur;
    let cand = runnable_but(s, me);
    if s.replay.is_some() {
        if let Some(next) = recorded(s, false) {
            if cand.contains(&next) {
                log_switch(s, me, next, false);
                go(s, next);
            }
        }
        return;
    }
    if cand.is_empty() {
        arm(s, me);
        return;
    }
    if s.policy.kind == 2 {
        s.low_prio -= 1;
        s.tasks[me].prio = s.low_prio;
    }
    let next = choose(s, &cand, false);
    log_switch(s, me, next, false);
    go(s, next);
}

/// The running task cannot go on (its state already says why).
unsafe fn forced_away(s: &mut Sim) {
    let me = s.cur;
    stat(ST_FORCED, 1);
    loop {
        let cand = runnable(s);
        if !cand.is_empty() {
            let next = choose(s, &cand, true);
            log_switch(s, me, next, true);
            if next == me {
                // a timer of our own fired
                arm(s, me);
                return;
            }
            go(s, next);
            return;
        }
        if !fire_timer(s) {
            break;
        }
    }
    // nobody can run and no timer is pending
    let mut blocked = 0;
    for i in 1..s.n {
        match s.tasks[i].state {
            St::Futex | St::Sleep | St::Join => blocked += 1,
            _ => {}
        }
    }
    if blocked > 0 {
        finish(V_DEADLOCK, blocked);
    }
    to_coordinator(s);
}

unsafe fn to_coordinator(s: &mut Sim) {
    let me = s.cur;
    account(s);
    s.cur = 0;
    CUR = &mut s.tasks[0];
    let mine: *const Task = &s.tasks[me];
    gate_open(&s.tasks[0]);
    gate_wait(mine);
    arm(&mut *S, me);
}

unsafe fn fire_timer(s: &mut Sim) -> bool {
    let mut best: Option<usize> = None;
    for i in 1..s.n {
        let t = &s.tasks[i];
        if (t.state == St::Sleep || t.state == St::Futex) && t.deadline != NEVER {
            if best.is_none_or(|b| s.tasks[b].deadline > t.deadline) {
                best = Some(i);
            }
        }
    }
    if let Some(b) = best {
        let now = now_ns(s);
        let d = s.tasks[b].deadline;
        if d > now {
            s.clk_extra += d - now;
        }
        let t = &mut s.tasks[b];
        t.timed_out = t.state == St::Futex;
        t.deadline = NEVER;
        t.state = St::Runnable;
        true
    } else {
        false
    }
}

#[cold]
#[inline(never)]
unsafe fn slow() {
    let s = &mut *S;
    let me = s.cur;
    let t = &mut s.tasks[me];
    if t.op_step >= t.step_limit {
        finish(V_OVERRUN, 0);
    }
    if t.op_step >= t.stall_at {
        t.state = St::Stalled;
        t.stall_at = NEVER;
        stat(ST_STALL, 1);
        forced_away(s);
        // never comes back
        loop {
            gate_wait(&(&*S).tasks[me]);
        }
    }
    if s.replay.is_some() {
        let here = t.queue.iter().any(|&(a, f, _)| a == t.op_step && !f);
        if here {
            preempt(s);
            let s = &mut *S;
            let t = &mut s.tasks[s.cur];
            // drop entries passed by
            while let Some(&(st, f, _)) = t.queue.front() {
                if st < t.op_step && !f {
                    t.queue.pop_front();
                } else {
                    break;
                }
            }
            arm(s, s.cur);
            return;
        }
        if t.op_step >= t.slice_end {
            slice_over(s);
            return;
        }
        arm_keep_slice(s);
        return;
    }
    if t.op_step >= t.slice_end {
        slice_over(s);
        return;
    }
    if t.op_step >= t.preempt_at {
        preempt(s);
        return;
    }
    recompute_stop(t);
}

unsafe fn arm_keep_slice(s: &mut Sim) {
    let me = s.cur;
    let keep = s.tasks[me].slice_end;
    arm(s, me);
    let t = &mut s.tasks[me];
    t.slice_end = keep;
    recompute_stop(t);
}

/// Fairness: nobody keeps the token for ever, whatever the policy or the trace says.
unsafe fn slice_over(s: &mut Sim) {
    let me = s.cur;
    let others = runnable_but(s, me);
    if others.is_empty() {
        arm(s, me);
        // sleepers may become due while somebody spins on them
        let _ = fire_timer(s);
        return;
    }
    let next = *others.iter().find(|&&i| i > me).unwrap_or(&others[0]);
    go(s, next);
}

#[inline(always)]
unsafe fn step() {
    let t = &mut *CUR;
    t.op_step += 1;
    if t.op_step >= t.stop_at {
        slow();
    }
}

// ---------------------------------------------------------------- coverage callbacks
static mut GUARDS: u32 = 0;
static mut DATA_LO: usize = 0;
static mut DATA_LEN: usize = 0;
static mut SHARED_LO: usize = 0;
static mut SHARED_LEN: usize = 0;

pub fn guards() -> u32 {
    unsafe { GUARDS }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(a: *mut u32, b: *mut u32) {
    if a == b || *a != 0 {
        return;
    }
    let mut p = a;
    while p < b {
        GUARDS += 1;
        *p = GUARDS;
        p = p.add(1);
    }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    if !ACTIVE.get() {
        return;
    }
    let id = *g;
    (*CUR).last_guard = id;
    if (id as usize) < COV_CAP {
        *AREAS.cov.add(id as usize) |= 1;
    }
    step();
}

// ---------------------------------------------------------------- constants in comparisons
static mut LISTEN: bool = false;

pub fn listen(on: bool) {
    unsafe { LISTEN = on }
}

pub fn clear_dict() {
    unsafe { std::ptr::write_bytes(AREAS.dict, 0, DICT_CAP) }
}

pub fn dict() -> Vec<u64> {
    let mut v: Vec<u64> = unsafe { (0..DICT_CAP).map(|i| *AREAS.dict.add(i)).filter(|c| *c != 0).collect() };
    v.sort();
    v
}

#[cold]
#[inline(never)]
unsafe fn note_const(v: u64) {
    if v == 0 || !ACTIVE.get() {
        return;
    }
    let mut i = (v.wrapping_mul(0x9E3779B97F4A7C15) >> 52) as usize;
    for _ in 0..64 {
        let p = AREAS.dict.add(i % DICT_CAP);
        if *p == v {
            return;
        }
        if *p == 0 {
            *p = v;
            return;
        }
        i += 1;
    }
}

macro_rules! cov_cmp {
    ($($c:ident $k:ident $t:ty),*) => {$(
        #[no_mangle] pub unsafe extern "C" fn $c(_a: $t, _b: $t) {}
        #[no_mangle] pub unsafe extern "C" fn $k(a: $t, _b: $t) { if LISTEN { note_const(a as u64) } }
    )*};
}
cov_cmp!(
    __sanitizer_cov_trace_cmp1 __sanitizer_cov_trace_const_cmp1 u8,
    __sanitizer_cov_trace_cmp2 __sanitizer_cov_trace_const_cmp2 u16,
    __sanitizer_cov_trace_cmp4 __sanitizer_cov_trace_const_cmp4 u32,
    __sanitizer_cov_trace_cmp8 __sanitizer_cov_trace_const_cmp8 u64
);

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_switch(_v: u64, cases: *const u64) {
    if LISTEN {
        for i in 0..(*cases).min(64) {
            note_const(*cases.add(2 + i as usize));
        }
    }
}

/// The edges taken since the last call of this; forgets them.
pub fn take_edges() -> Vec<u32> {
    let mut v = vec![];
    unsafe {
        for i in 0..(GUARDS as usize + 1).min(COV_CAP) {
            if *AREAS.cov.add(i) & 1 != 0 {
                *AREAS.cov.add(i) &= !1;
                v.push(i as u32);
            }
        }
    }
    v
}

#[inline(always)]
fn thread_pointer() -> usize {
    let p: usize;
    unsafe { std::arch::asm!("mov {}, fs:0", out(reg) p, options(nostack, preserves_flags, readonly)) };
    p
}

static mut TLS_LEN: usize = 0;

/// Where the calling thread's block of thread-local variables of this program begins.
pub fn tls_base() -> usize {
    unsafe { thread_pointer() - TLS_LEN }
}

/// The thread-local variables of this program lie right below the thread pointer.
unsafe fn find_tls() {
    #[repr(C)]
    struct Phdr {
        kind: u32,
        flags: u32,
        off: u64,
        vaddr: u64,
        paddr: u64,
        filesz: u64,
        memsz: u64,
        align: u64,
    }
    extern "C" {
        fn getauxval(k: u64) -> u64;
    }
    let (ph, n) = (getauxval(3) as *const Phdr, getauxval(5) as usize);
    for i in 0..n {
        let h = &*ph.add(i);
        if h.kind == 7 {
            TLS_LEN = (h.memsz.next_multiple_of(h.align.max(1))) as usize;
        }
    }
}

unsafe fn odd_now() -> u64 {
    [ST_CLOCK, ST_SLEEP, ST_ENV, ST_NCPU, ST_ENTROPY, ST_SPAWN, ST_FUTEX_WAIT, ST_SYS].iter().map(|&i| shm().stats[i]).sum()
}

#[inline(always)]
unsafe fn access(p: usize, store: bool) {
    if !ACTIVE.get() {
        return;
    }
    step();
    if p.wrapping_sub(DATA_LO) < DATA_LEN {
        if store {
            stat(ST_WRITE, 1);
        }
        hot(p, false);
    } else if thread_pointer().wrapping_sub(p).wrapping_sub(1) < TLS_LEN {
        (*CUR).tls += 1;
        if store {
            stat(ST_WRITE, 1);
        }
        stat(ST_TLS, 1);
    } else if store && p.wrapping_sub(SHARED_LO) < SHARED_LEN {
        hot(p, true);
    }
}

#[cold]
#[inline(never)]
unsafe fn hot(p: usize, shared: bool) {
    let s = &mut *S;
    let h = shm();
    h.stats[if shared { ST_HOT_SHARED } else { ST_HOT }] += 1;
    let off = if shared { (1 << 40) | (p - SHARED_LO) as u64 } else { (p - DATA_LO) as u64 };
    let n = h.n_hot as usize;
    if n < 256 && !h.hot[..n].contains(&off) {
        h.hot[n] = off;
        h.n_hot += 1;
    }
    if !shared {
        let t = &mut s.tasks[s.cur];
        t.hots += 1;
        if t.hots == t.stall_hot {
            t.stall_at = t.op_step + t.stall_delta;
            recompute_stop(t);
            if t.stall_delta == 0 {
                slow();
            }
        }
    }
    maybe_preempt(s, s.policy.p_hot);
}

unsafe fn maybe_preempt(s: &mut Sim, p: u32) {
    if s.replay.is_some() {
        let t = &s.tasks[s.cur];
        if t.queue.iter().any(|&(a, f, _)| a == t.op_step && !f) {
            preempt(s);
        }
    } else if p > 0 && s.switches < s.policy.max_switches && s.rng.below(1000) < p as u64 {
        preempt(s);
    }
}

macro_rules! cov_access {
    ($($l:ident $s:ident),*) => {$(
        #[no_mangle] pub unsafe extern "C" fn $l(p: usize) { access(p, false) }
        #[no_mangle] pub unsafe extern "C" fn $s(p: usize) { access(p, true) }
    )*};
}
cov_access!(
    __sanitizer_cov_load1 __sanitizer_cov_store1,
    __sanitizer_cov_load2 __sanitizer_cov_store2,
    __sanitizer_cov_load4 __sanitizer_cov_store4,
    __sanitizer_cov_load8 __sanitizer_cov_store8,
    __sanitizer_cov_load16 __sanitizer_cov_store16
);

extern "C" {
    static __data_start: u8;
    static _end: u8;
}

// ---------------------------------------------------------------- allocator
const REGION: usize = 0x6000_0000_0000;
const REGION_LEN: usize = 24 << 30;
const HDR: usize = 32;
const TAIL: usize = 16;
const LIVE: u32 = 0x4C49_5645;
const FREE: u32 = 0x4652_4545;
const NCLASS: usize = 40;

#[repr(C)]
struct Hdr {
    magic: u32,
    class: u32,
    size: u64,
    align: u32,
    op: u32,
    next: u64,
}

struct Heap {
    bump: usize,
    free: [usize; NCLASS],
    live_blocks: i64,
    live_bytes: i64,
    counter: u64,
    seed: u64,
}

static mut REGION_START: usize = REGION + 4096;
static mut HEAP: Heap = Heap { bump: 0, free: [0; NCLASS], live_blocks: 0, live_bytes: 0, counter: 0, seed: 0 };

#[inline]
fn in_region(p: usize) -> bool {
    p.wrapping_sub(REGION) < REGION_LEN
}

unsafe fn region_alloc(l: Layout, env: &EnvCfg, zero: bool) -> *mut u8 {
    let size = l.size();
    if l.align() > 32 || size > (1 << 33) {
        return System.alloc(l);
    }
    let need = size + TAIL;
    let class = (need.max(32)).next_power_of_two().trailing_zeros() as usize;
    let cap = 1usize << class;
    let h = &mut HEAP;
    let mut reused = false;
    let p = if env.reuse == 1 && h.free[class] != 0 {
        let p = h.free[class];
        h.free[class] = (*((p - HDR) as *const Hdr)).next as usize;
        reused = true;
        p
    } else {
        let p = h.bump + HDR;
        if h.bump + HDR + cap > REGION + REGION_LEN {
            return std::ptr::null_mut();
        }
        h.bump += HDR + cap;
        p
    };
    h.counter += 1;
    h.live_blocks += 1;
    h.live_bytes += size as i64;
    let hd = (p - HDR) as *mut Hdr;
    *hd = Hdr { magic: LIVE, class: class as u32, size: size as u64, align: l.align() as u32, op: if CUR.is_null() { NONE32 } else { (*CUR).op }, next: 0 };
    let pay = p as *mut u8;
    if zero {
        std::ptr::write_bytes(pay, 0, size);
    } else {
        match env.fill {
            0 => {
                if reused {
                    stat(ST_STALE, 1);
                }
            }
            1 => {
                if reused {
                    std::ptr::write_bytes(pay, 0, size)
                }
            }
            2 => {
                stat(ST_FILLED, 1);
                std::ptr::write_bytes(pay, 0xFF, size)
            }
            3 => {
                stat(ST_FILLED, 1);
                std::ptr::write_bytes(pay, 0xA5, size)
            }
            _ => {
                stat(ST_FILLED, 1);
                let mut x = h.counter.wrapping_mul(0x9E3779B97F4A7C15) ^ h.seed;
                for i in 0..size.min(4096) {
                    x ^= x << 13;
                    x ^= x >> 7;
                    x ^= x << 17;
                    *pay.add(i) = x as u8;
                }
            }
        }
    }
    std::ptr::write_bytes(pay.add(size), 0xC3, TAIL.min(cap - size));
    pay
}

unsafe fn region_free(p: *mut u8, l: Layout, env: &EnvCfg) {
    let hd = (p as usize - HDR) as *mut Hdr;
    if (*hd).magic != LIVE {
        heap_error("block freed twice or never allocated", (*hd).op);
    }
    if (*hd).size != l.size() as u64 || (*hd).align != l.align() as u32 {
        heap_error("block freed with another layout than it was allocated with", (*hd).op);
    }
    for i in 0..TAIL {
        if *p.add(l.size() + i) != 0xC3 {
            heap_error("write past the end of a block", (*hd).op);
        }
    }
    let h = &mut HEAP;
    h.live_blocks -= 1;
    h.live_bytes -= l.size() as i64;
    (*hd).magic = FREE;
    if env.poison_free {
        std::ptr::write_bytes(p, 0x5D, l.size());
    }
    let c = (*hd).class as usize;
    (*hd).next = h.free[c] as u64;
    h.free[c] = p as usize;
}

unsafe fn heap_error(what: &str, op: u32) -> ! {
    ACTIVE.set(false);
    TO_REGION.set(false);
    set_note(what);
    finish(V_HEAP, op)
}

pub struct SimAlloc;

#[inline]
unsafe fn env_now() -> EnvCfg {
    if S.is_null() {
        EnvCfg::plain()
    } else {
        (*S).env
    }
}

unsafe fn sim_alloc(l: Layout, zero: bool) -> *mut u8 {
    if ACTIVE.get() {
        let s = &mut *S;
        step();
        if s.policy.p_alloc > 0 || s.replay.is_some() {
            maybe_preempt(s, s.policy.p_alloc);
        }
        stat(ST_ALLOCS, 1);
        let t = &mut *CUR;
        t.allocs += 1;
        if !t.fail_off && (t.allocs == t.fail_at || (t.fail_persist && t.allocs > t.fail_at)) && !std::thread::panicking() {
            t.failed += 1;
            stat(ST_ALLOC_FAIL, 1);
            return std::ptr::null_mut();
        }
    }
    region_alloc(l, &env_now(), zero)
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if TO_REGION.get() {
            sim_alloc(l, false)
        } else {
            System.alloc(l)
        }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if TO_REGION.get() {
            sim_alloc(l, true)
        } else {
            System.alloc_zeroed(l)
        }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if in_region(p as usize) {
            if ACTIVE.get() {
                step();
            }
            region_free(p, l, &env_now());
        } else {
            System.dealloc(p, l)
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if !in_region(p as usize) {
            if !TO_REGION.get() {
                return System.realloc(p, l, new);
            }
            // harness memory grown inside a call
            let q = sim_alloc(Layout::from_size_align_unchecked(new, l.align()), false);
            if !q.is_null() {
                std::ptr::copy_nonoverlapping(p, q, l.size().min(new));
                System.dealloc(p, l);
            }
            return q;
        }
        let env = env_now();
        if !env.realloc_move {
            let hd = (p as usize - HDR) as *mut Hdr;
            if (*hd).magic == LIVE && (*hd).size == l.size() as u64 && new + TAIL <= 1usize << (*hd).class {
                if ACTIVE.get() {
                    step();
                    stat(ST_ALLOCS, 1);
                    let t = &mut *CUR;
                    t.allocs += 1;
                    if !t.fail_off && (t.allocs == t.fail_at || (t.fail_persist && t.allocs > t.fail_at)) && !std::thread::panicking() {
                        t.failed += 1;
                        stat(ST_ALLOC_FAIL, 1);
                        return std::ptr::null_mut();
                    }
                }
                for i in 0..TAIL {
                    if *p.add(l.size() + i) != 0xC3 {
                        heap_error("write past the end of a block", (*hd).op);
                    }
                }
                HEAP.live_bytes += new as i64 - l.size() as i64;
                (*hd).size = new as u64;
                std::ptr::write_bytes(p.add(new), 0xC3, TAIL);
                return p;
            }
        }
        stat(ST_REALLOC_MOVE, 1);
        let q = if TO_REGION.get() {
            sim_alloc(Layout::from_size_align_unchecked(new, l.align()), false)
        } else {
            region_alloc(Layout::from_size_align_unchecked(new, l.align()), &env, false)
        };
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(new));
            region_free(p, l, &env);
        }
        q
    }
}

/// (live blocks, live bytes) held by calls so far.
pub fn ledger() -> (i64, i64) {
    unsafe { (HEAP.live_blocks, HEAP.live_bytes) }
}

/// Live blocks obtained during calls with an id of at least `from`, for reporting.
pub fn live_since(from: u32) -> Vec<(u32, u64)> {
    unsafe {
        let mut v = Vec::new();
        let mut p = REGION_START;
        while p < HEAP.bump {
            let hd = p as *const Hdr;
            if (*hd).magic == LIVE && (*hd).op != NONE32 && (*hd).op >= from {
                v.push(((*hd).op, (*hd).size));
            }
            p += HDR + (1usize << (*hd).class);
        }
        v
    }
}

// ---------------------------------------------------------------- set-up
extern "C" {
    fn mmap(a: *mut c_void, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut c_void;
    fn dlsym(h: *mut c_void, n: *const i8) -> *mut c_void;
    fn __errno_location() -> *mut i32;
}

/// Once per worker process, before any fork.
pub fn init_process() {
    unsafe {
        let p = mmap(REGION as *mut c_void, REGION_LEN, 3, 0x2 | 0x20 | 0x4000 | 0x100000, -1, 0);
        if p as usize != REGION {
            eprintln!("simrt: cannot reserve the simulated heap");
            std::process::exit(3);
        }
        HEAP.bump = REGION + 4096;
        let sh = |n: usize| {
            let p = mmap(std::ptr::null_mut(), n, 3, 0x1 | 0x20 | 0x4000, -1, 0);
            if p as isize == -1 {
                eprintln!("simrt: mmap failed");
                std::process::exit(3);
            }
            p
        };
        AREAS.shm = sh(std::mem::size_of::<Shm>()) as *mut Shm;
        AREAS.trace = sh(TRACE_CAP * std::mem::size_of::<TraceEnt>()) as *mut TraceEnt;
        AREAS.out = sh(OUT_CAP) as *mut u8;
        AREAS.cov = sh(COV_CAP) as *mut u8;
        AREAS.dict = sh(DICT_CAP * 8) as *mut u64;
        DATA_LO = &__data_start as *const u8 as usize;
        DATA_LEN = &_end as *const u8 as usize - DATA_LO;
        find_tls();
        real();
    }
}

pub fn reset_shm() {
    unsafe {
        std::ptr::write_bytes(AREAS.shm, 0, 1);
    }
}

pub fn take_trace() -> Vec<TraceEnt> {
    unsafe { (0..shm().n_trace as usize).map(|i| *AREAS.trace.add(i)).collect() }
}

/// In the child: install the simulator for this run; the caller becomes the coordinator.
pub fn install(cfg: RunCfg) {
    unsafe {
        let mut s = Box::new(Sim {
            tasks: [NEW_TASK; MAX_TASKS],
            n: 1,
            cur: 0,
            reap: -1,
            rng: Rng::new(cfg.seed ^ 0x5363_6865_6475_6c65),
            env_rng: Rng::new(cfg.seed ^ 0x456e_7669_726f_6e00),
            policy: cfg.policy,
            env: cfg.env,
            replay: None,
            switches: 0,
            gsteps: 0,
            clk_extra: 0,
            clk_back: 0,
            seq: 0,
            rng_draws: 0,
            entropy: Rng::new(cfg.env.entropy),
            low_prio: 1 << 20,
            handles: 0,
        });
        if let Some(tr) = cfg.replay {
            let mut m: HashMap<(u16, u32), VecDeque<(u64, bool, u16)>> = HashMap::new();
            for e in tr {
                m.entry((e.task, e.op)).or_default().push_back((e.step, e.forced != 0, e.next));
            }
            s.replay = Some(m);
        }
        s.tasks[0].state = St::Coord;
        HEAP.seed = cfg.seed;
        HEAP.bump += (cfg.env.skew as usize) * 4112;
        REGION_START = HEAP.bump;
        S = Box::into_raw(s);
        CUR = &mut (*S).tasks[0];
        ME.set(0);
        std::alloc::set_alloc_error_hook(oom_hook);
        std::panic::set_hook(Box::new(|_| {}));
    }
}

fn oom_hook(_l: Layout) {
    unsafe {
        if ME.get() >= 0 && !CUR.is_null() {
            (*CUR).fail_off = true;
        }
    }
    panic!("simulated out of memory");
}

/// Everything a call did to its surroundings so far, reading aside.
pub fn marks() -> u64 {
    unsafe { odd_now() + shm().stats[ST_WRITE] + shm().stats[ST_HOT_SHARED] }
}

pub fn stat_of(i: usize) -> u64 {
    unsafe { shm().stats[i] }
}

/// Builds the operands that threads will share, in memory of their own that is watched for stores.
pub fn build_shared<T>(f: impl FnOnce() -> T) -> T {
    unsafe {
        let lo = HEAP.bump;
        TO_REGION.set(true);
        let r = f();
        TO_REGION.set(false);
        SHARED_LO = lo;
        SHARED_LEN = HEAP.bump - lo;
        r
    }
}

/// Runs one body per thread under the scheduler until all are finished or stalled.
pub fn run_threads(bodies: Vec<Box<dyn FnOnce() + Send + 'static>>) {
    unsafe {
        for b in bodies {
            let mut h = std::thread::Builder::new().stack_size(256 << 20);
            if (*S).env.skew & 16 != 0 {
                let kind = ["client-", "worker", "main", "tokio-runtime-worker", "hmath-"][(*S).env.skew as usize / 32 % 5];
                h = h.name(if kind.ends_with('-') { format!("{kind}{}", (*S).n) } else { kind.into() });
            }
            let h = h.spawn(b);
            match h {
                Ok(h) => std::mem::forget(h),
                Err(_) => finish(V_LIMIT, 1),
            }
        }
        let s = &mut *S;
        if s.policy.kind == 2 {
            for i in 1..s.n {
                s.tasks[i].prio = (1 << 32) + (s.rng.next() >> 16);
            }
        }
        loop {
            let s = &mut *S;
            if s.reap >= 0 {
                let r = s.reap as usize;
                s.reap = -1;
                let mut rv: *mut c_void = std::ptr::null_mut();
                (real().join)(s.tasks[r].pth, &mut rv);
                s.tasks[r].state = St::Finished;
                s.tasks[r].retval = rv;
                for i in 1..s.n {
                    if s.tasks[i].state == St::Join && s.tasks[i].join_target == r {
                        s.tasks[i].state = St::Runnable;
                    }
                }
            }
            let cand = loop {
                let c = runnable(s);
                if !c.is_empty() || !fire_timer(s) {
                    break c;
                }
            };
            if cand.is_empty() {
                let mut blocked = 0;
                for i in 1..s.n {
                    if matches!(s.tasks[i].state, St::Futex | St::Sleep | St::Join) {
                        blocked += 1;
                    }
                }
                if blocked > 0 {
                    finish(V_DEADLOCK, blocked);
                }
                break;
            }
            s.tasks[0].op_step += 1; // coordinator decisions have positions too
            if s.replay.is_some() {
                let q = s.replay.as_mut().unwrap().remove(&(0, NONE32));
                if let Some(q) = q {
                    s.tasks[0].queue = q;
                }
            }
            let next = choose(s, &cand, true);
            log_switch(s, 0, next, true);
            s.cur = next;
            CUR = &mut s.tasks[next];
            let mine: *const Task = &s.tasks[0];
            gate_open(&s.tasks[next]);
            gate_wait(mine);
        }
    }
}

/// Threads that will never finish because they were stalled.
pub fn stalled() -> usize {
    unsafe { (1..(*S).n).filter(|&i| (*S).tasks[i].state == St::Stalled).count() }
}

pub fn op_begin(c: OpCfg) {
    unsafe {
        let s = &mut *S;
        account(s);
        let me = s.cur;
        let t = &mut s.tasks[me];
        t.op = c.id;
        t.op_step = 0;
        t.counted = 0;
        t.step_limit = c.step_limit;
        t.stall_at = c.stall_at;
        t.stall_hot = c.stall_hot;
        t.stall_delta = c.stall_delta;
        t.hots = 0;
        t.tls = 0;
        t.draws = 0;
        t.odd_from = odd_now();
        t.allocs = 0;
        t.fail_at = c.fail_at;
        t.fail_persist = c.fail_persist;
        t.fail_off = false;
        t.failed = 0;
        t.queue.clear();
        if let Some(r) = s.replay.as_mut() {
            if let Some(q) = r.remove(&(me as u16, c.id)) {
                t.queue = q;
            }
        }
        arm(s, me);
        stat(ST_OPS, 1);
        if s.n > 2 {
            maybe_preempt(s, s.policy.p_begin);
        }
        leave_on_stack(s.env.fill, s.env.entropy ^ c.id as u64);
        TO_REGION.set(true);
        ACTIVE.set(true);
    }
}

pub fn op_end() -> OpStat {
    unsafe {
        ACTIVE.set(false);
        TO_REGION.set(false);
        let s = &mut *S;
        account(s);
        let t = &mut s.tasks[s.cur];
        t.fail_at = NEVER;
        t.stall_at = NEVER;
        t.stall_hot = NEVER;
        OpStat { steps: t.op_step, allocs: t.allocs, failed: t.failed, hots: t.hots, odd: t.tls + odd_now() - t.odd_from }
    }
}

/// Library memory handled outside a call (operands, results being dropped).
pub fn in_heap<T>(f: impl FnOnce() -> T) -> T {
    let r = TO_REGION.get();
    TO_REGION.set(true);
    let v = f();
    TO_REGION.set(r);
    v
}

/// Suspends fault injection and stepping of the running call while harness code runs in it.
pub fn pause<T>(f: impl FnOnce() -> T) -> T {
    let a = ACTIVE.get();
    let r = TO_REGION.get();
    ACTIVE.set(false);
    TO_REGION.set(false);
    let v = f();
    TO_REGION.set(r);
    ACTIVE.set(a);
    v
}

/// An explicit scheduling point inside harness code called by the library.
pub fn yield_here() {
    unsafe {
        if ACTIVE.get() {
            step();
        }
    }
}

/// A slot for harness code that the library calls without any context.
#[inline(never)]
pub fn set_slot(p: *const ()) {
    SLOT.set(p)
}
#[inline(never)]
pub fn slot() -> *const () {
    SLOT.get()
}
thread_local! {
    static SLOT: std::cell::Cell<*const ()> = const { std::cell::Cell::new(std::ptr::null()) };
}

pub fn now_seq() -> u64 {
    unsafe {
        let s = &mut *S;
        s.seq += 1;
        s.seq
    }
}

pub fn me() -> i32 {
    ME.get()
}

/// Appends a record to the output area.
pub fn emit(b: &[u8]) {
    unsafe {
        let h = shm();
        let n = h.n_out as usize;
        if n + b.len() + 8 > OUT_CAP {
            finish(V_LIMIT, 2);
        }
        std::ptr::copy_nonoverlapping((b.len() as u64).to_le_bytes().as_ptr(), AREAS.out.add(n), 8);
        std::ptr::copy_nonoverlapping(b.as_ptr(), AREAS.out.add(n + 8), b.len());
        h.n_out += 8 + b.len() as u64;
    }
}

pub fn take_out() -> Vec<Vec<u8>> {
    unsafe {
        let mut v = Vec::new();
        let mut p = 0usize;
        let n = shm().n_out as usize;
        while p + 8 <= n {
            let mut l = [0u8; 8];
            std::ptr::copy_nonoverlapping(AREAS.out.add(p), l.as_mut_ptr(), 8);
            let l = u64::from_le_bytes(l) as usize;
            if p + 8 + l > n {
                break;
            }
            v.push(std::slice::from_raw_parts(AREAS.out.add(p + 8), l).to_vec());
            p += 8 + l;
        }
        v
    }
}

pub fn header() -> &'static Shm {
    shm()
}

// ---------------------------------------------------------------- interposed functions
struct Real {
    create: unsafe extern "C" fn(*mut u64, *const c_void, extern "C" fn(*mut c_void) -> *mut c_void, *mut c_void) -> i32,
    join: unsafe extern "C" fn(u64, *mut *mut c_void) -> i32,
    detach: unsafe extern "C" fn(u64) -> i32,
    getenv: unsafe extern "C" fn(*const i8) -> *mut i8,
    affinity: unsafe extern "C" fn(i32, usize, *mut u8) -> i32,
}

static mut REAL: Option<Real> = None;

unsafe fn real() -> &'static Real {
    if REAL.is_none() {
        let f = |n: &str| {
            let p = dlsym(-1isize as *mut c_void, n.as_ptr() as *const i8);
            if p.is_null() {
                exit_now(3);
            }
            p
        };
        REAL = Some(Real {
            create: std::mem::transmute::<*mut c_void, unsafe extern "C" fn(*mut u64, *const c_void, extern "C" fn(*mut c_void) -> *mut c_void, *mut c_void) -> i32>(f("pthread_create\0")),
            join: std::mem::transmute::<*mut c_void, unsafe extern "C" fn(u64, *mut *mut c_void) -> i32>(f("pthread_join\0")),
            detach: std::mem::transmute::<*mut c_void, unsafe extern "C" fn(u64) -> i32>(f("pthread_detach\0")),
            getenv: std::mem::transmute::<*mut c_void, unsafe extern "C" fn(*const i8) -> *mut i8>(f("getenv\0")),
            affinity: std::mem::transmute::<*mut c_void, unsafe extern "C" fn(i32, usize, *mut u8) -> i32>(f("sched_getaffinity\0")),
        });
    }
    REAL.as_ref().unwrap()
}

struct Tramp {
    id: usize,
    start: extern "C" fn(*mut c_void) -> *mut c_void,
    arg: *mut c_void,
    active: bool,
}

extern "C" fn trampoline(p: *mut c_void) -> *mut c_void {
    unsafe {
        let t = std::ptr::read(p as *mut Tramp);
        System.dealloc(p as *mut u8, Layout::new::<Tramp>());
        ME.set(t.id as i32);
        gate_wait(&(&*S).tasks[t.id]);
        arm(&mut *S, t.id);
        TO_REGION.set(t.active);
        ACTIVE.set(t.active);
        let r = deeper((&*S).env.skew % 64, &t);
        ACTIVE.set(false);
        TO_REGION.set(false);
        ME.set(-2);
        // The thread-local destructors still run after this; the coordinator waits for the
        // real end of the thread before anybody else gets the token.
        let s = &mut *S;
        account(s);
        s.tasks[t.id].state = St::Exiting;
        s.reap = t.id as i32;
        s.cur = 0;
        CUR = &mut s.tasks[0];
        gate_open(&s.tasks[0]);
        r
    }
}

/// Local variables, too, lie somewhere else in other surroundings.
#[inline(never)]
unsafe fn deeper(n: u32, t: &Tramp) -> *mut c_void {
    let mut pad = [0u8; 80];
    std::hint::black_box(&mut pad);
    let r = if n == 0 { (t.start)(t.arg) } else { deeper(n - 1, t) };
    std::hint::black_box(&mut pad);
    r
}

/// What earlier calls left on the stack below this point, as the surroundings decide.
#[inline(never)]
unsafe fn leave_on_stack(fill: u8, x: u64) {
    let mut a = std::mem::MaybeUninit::<[u64; 4096]>::uninit();
    let p = a.as_mut_ptr() as *mut u64;
    let w = match fill {
        0 => return,
        1 => 0,
        2 => u64::MAX,
        3 => 0xA5A5_A5A5_A5A5_A5A5,
        _ => rng::mix(x),
    };
    stat(ST_STACK, 1);
    for i in 0..4096 {
        std::ptr::write_volatile(p.add(i), if fill > 3 { w.rotate_left(i as u32 & 63) ^ i as u64 } else { w });
    }
    std::hint::black_box(&mut a);
}

#[no_mangle]
pub unsafe extern "C" fn getpid() -> i32 {
    if !ACTIVE.get() {
        return sys6(39, 0, 0, 0, 0, 0, 0) as i32;
    }
    stat(ST_SYS, 1);
    1 + ((*S).env.entropy % 4_000_000) as i32
}

#[no_mangle]
pub unsafe extern "C" fn getppid() -> i32 {
    if !ACTIVE.get() {
        return sys6(110, 0, 0, 0, 0, 0, 0) as i32;
    }
    stat(ST_SYS, 1);
    1 + ((*S).env.entropy % 400) as i32
}

#[no_mangle]
pub unsafe extern "C" fn getcwd(buf: *mut i8, n: usize) -> *mut i8 {
    if !ACTIVE.get() {
        let r = sys6(79, buf as i64, n as i64, 0, 0, 0, 0);
        if r < 0 {
            *__errno_location() = (-r) as i32;
            return std::ptr::null_mut();
        }
        return buf;
    }
    stat(ST_SYS, 1);
    let d: &[u8] = match (*S).env.getenv {
        0 => b"/\0",
        1 => b"/home/somebody/else\0",
        2 => b"/tmp\0",
        _ => {
            *__errno_location() = 2;
            return std::ptr::null_mut();
        }
    };
    if n < d.len() || buf.is_null() {
        *__errno_location() = 34;
        return std::ptr::null_mut();
    }
    std::ptr::copy_nonoverlapping(d.as_ptr() as *const i8, buf, d.len());
    buf
}

unsafe fn open_any(path: *const i8, flags: i32, mode: u32) -> i32 {
    let mut q = path;
    if ACTIVE.get() {
        // no file a library call might look for is there, or it is empty
        stat(ST_SYS, 1);
        match (*S).env.getenv {
            1 => q = c"/dev/null".as_ptr(),
            2 => {
                *__errno_location() = 13;
                return -1;
            }
            _ => {
                *__errno_location() = 2;
                return -1;
            }
        }
    }
    let r = sys6(257, -100, q as i64, flags as i64, mode as i64, 0, 0);
    if r < 0 {
        *__errno_location() = (-r) as i32;
        return -1;
    }
    r as i32
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const i8, flags: i32, mode: u32) -> i32 {
    open_any(path, flags, mode)
}

#[no_mangle]
pub unsafe extern "C" fn pthread_create(th: *mut u64, attr: *const c_void, start: extern "C" fn(*mut c_void) -> *mut c_void, arg: *mut c_void) -> i32 {
    if ME.get() < 0 || S.is_null() {
        return (real().create)(th, attr, start, arg);
    }
    let s = &mut *S;
    if s.n >= MAX_TASKS {
        // reuse the slot of a thread that is long gone
        if let Some(i) = (1..s.n).find(|&i| s.tasks[i].state == St::Finished && s.tasks[i].user_joined) {
            return start_task(s, i, th, attr, start, arg);
        }
        return 11; // EAGAIN
    }
    let id = s.n;
    s.n += 1;
    start_task(s, id, th, attr, start, arg)
}

unsafe fn start_task(s: &mut Sim, id: usize, th: *mut u64, attr: *const c_void, start: extern "C" fn(*mut c_void) -> *mut c_void, arg: *mut c_void) -> i32 {
    let active = ACTIVE.get();
    let parent_op = s.tasks[s.cur].op;
    let parent_limit = s.tasks[s.cur].step_limit;
    s.tasks[id] = NEW_TASK;
    let t = &mut s.tasks[id];
    t.state = St::Runnable;
    t.op = if s.cur == 0 { NONE32 } else { parent_op };
    t.step_limit = if s.cur == 0 { NEVER } else { parent_limit };
    t.prio = (1 << 32) + (s.rng.next() >> 16);
    let op = t.op;
    if let Some(r) = s.replay.as_mut() {
        if let Some(q) = r.remove(&(id as u16, op)) {
            s.tasks[id].queue = q;
        }
    }
    if active {
        stat(ST_SPAWN, 1);
    }
    let p = System.alloc(Layout::new::<Tramp>()) as *mut Tramp;
    std::ptr::write(p, Tramp { id, start, arg, active });
    let r = (real().create)(th, attr, trampoline, p as *mut c_void);
    if r != 0 {
        s.tasks[id].state = St::Finished;
        return r;
    }
    s.tasks[id].pth = *th;
    // the real thread is joined as soon as it ends, so its own handle may come again
    s.handles += 1;
    *th = 0x5100_0000_0000 + s.handles * 64;
    s.tasks[id].handle = *th;
    0
}

#[no_mangle]
pub unsafe extern "C" fn pthread_join(th: u64, ret: *mut *mut c_void) -> i32 {
    if ME.get() < 0 || S.is_null() {
        return (real().join)(th, ret);
    }
    let s = &mut *S;
    let target = (1..s.n).rev().find(|&i| s.tasks[i].handle == th && !s.tasks[i].user_joined);
    let Some(target) = target else { return 3 };
    while (*S).tasks[target].state != St::Finished {
        let s = &mut *S;
        let me = s.cur;
        s.tasks[me].state = St::Join;
        s.tasks[me].join_target = target;
        forced_away(s);
    }
    let s = &mut *S;
    s.tasks[target].user_joined = true;
    if !ret.is_null() {
        *ret = s.tasks[target].retval;
    }
    0
}

#[no_mangle]
pub unsafe extern "C" fn pthread_detach(th: u64) -> i32 {
    if ME.get() < 0 || S.is_null() {
        return (real().detach)(th);
    }
    let s = &mut *S;
    if let Some(i) = (1..s.n).find(|&i| s.tasks[i].handle == th) {
        s.tasks[i].user_joined = true;
    }
    0
}

unsafe fn now_ns(s: &Sim) -> u64 {
    let t = &s.tasks[s.cur];
    s.gsteps + (t.op_step - t.counted) + s.clk_extra
}

#[repr(C)]
pub struct Timespec {
    sec: i64,
    nsec: i64,
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: i32, ts: *mut Timespec) -> i32 {
    if !ACTIVE.get() {
        return sys6(228, clk as i64, ts as i64, 0, 0, 0, 0) as i32;
    }
    stat(ST_CLOCK, 1);
    let s = &mut *S;
    let mut v = match s.env.clock_jump {
        3 => 0,
        _ => now_ns(s),
    };
    match s.env.clock_jump {
        1 => {
            s.clk_extra += s.env_rng.below(5_000_000_000);
        }
        2 if clk == 0 => {
            s.clk_extra += s.env_rng.below(5_000_000_000);
            s.clk_back = s.env_rng.below(7_200_000_000_000);
        }
        _ => {}
    }
    v += s.env.clock_base;
    if clk == 0 {
        v = v.saturating_sub(s.clk_back);
    }
    (*ts).sec = (v / 1_000_000_000) as i64;
    (*ts).nsec = (v % 1_000_000_000) as i64;
    0
}

unsafe fn sim_sleep(ns: u64) {
    stat(ST_SLEEP, 1);
    let s = &mut *S;
    let d = now_ns(s) + ns;
    let me = s.cur;
    s.tasks[me].state = St::Sleep;
    s.tasks[me].deadline = d;
    // let everybody else go first, then the clock jumps
    forced_away(s);
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const Timespec, rem: *mut Timespec) -> i32 {
    if !ACTIVE.get() {
        return sys6(35, req as i64, rem as i64, 0, 0, 0, 0) as i32;
    }
    sim_sleep(((*req).sec as u64).saturating_mul(1_000_000_000).saturating_add((*req).nsec as u64));
    0
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clk: i32, flags: i32, req: *const Timespec, rem: *mut Timespec) -> i32 {
    if !ACTIVE.get() {
        return -sys6(230, clk as i64, flags as i64, req as i64, rem as i64, 0, 0) as i32;
    }
    let mut ns = ((*req).sec as u64).saturating_mul(1_000_000_000).saturating_add((*req).nsec as u64);
    if flags & 1 != 0 {
        let s = &*S;
        ns = ns.saturating_sub(s.env.clock_base + now_ns(s));
    }
    sim_sleep(ns);
    0
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if !ACTIVE.get() {
        return sys6(24, 0, 0, 0, 0, 0, 0) as i32;
    }
    let s = &mut *S;
    s.tasks[s.cur].op_step += 1;
    slice_over(s);
    0
}

#[no_mangle]
pub unsafe extern "C" fn getenv(n: *const i8) -> *mut i8 {
    if !ACTIVE.get() {
        return (real().getenv)(n);
    }
    stat(ST_ENV, 1);
    match (*S).env.getenv {
        0 => std::ptr::null_mut(),
        1 => c"1".as_ptr() as *mut i8,
        2 => c"0".as_ptr() as *mut i8,
        _ => c"7fffffff-garbage".as_ptr() as *mut i8,
    }
}

#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: i32, n: usize, set: *mut u8) -> i32 {
    if !ACTIVE.get() {
        return (real().affinity)(pid, n, set);
    }
    stat(ST_NCPU, 1);
    std::ptr::write_bytes(set, 0, n);
    let k = (*S).env.ncpu.max(1) as usize;
    for i in 0..k.min(n * 8) {
        *set.add(i / 8) |= 1 << (i % 8);
    }
    0
}

/// Mode 10: what a thread draws first is fixed by the argument, everything after that is entropy.
unsafe fn seed_word() -> u64 {
    let s = &mut *S;
    let t = &mut *CUR;
    t.all_draws += 1;
    if t.all_draws <= 64 {
        rng::mix(s.env.rng_arg ^ rng::mix(ME.get() as u64) ^ t.all_draws << 40)
    } else {
        s.entropy.next()
    }
}

unsafe fn sim_entropy(buf: *mut u8, n: usize) -> i64 {
    stat(ST_ENTROPY, 1);
    let s = &mut *S;
    if s.env.rng_mode == 6 {
        stat(ST_RNG_FAIL, 1);
        *__errno_location() = 5;
        return -1;
    }
    for i in 0..n {
        *buf.add(i) = if s.env.rng_mode == 10 { seed_word() as u8 } else { s.entropy.next() as u8 };
    }
    n as i64
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, n: usize, flags: u32) -> i64 {
    if !ACTIVE.get() {
        let r = sys6(318, buf as i64, n as i64, flags as i64, 0, 0, 0);
        if r < 0 {
            *__errno_location() = (-r) as i32;
            return -1;
        }
        return r;
    }
    sim_entropy(buf, n)
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let sim = ME.get() > 0 && !S.is_null();
    if sim && n == 202 {
        return futex(a as usize, b as i32, c as u32, d as *const Timespec, f as u32);
    }
    if sim && n == 318 && ACTIVE.get() {
        return sim_entropy(a as *mut u8, b as usize);
    }
    let r = sys6(n, a, b, c, d, e, f);
    if (-4095..0).contains(&r) {
        *__errno_location() = (-r) as i32;
        return -1;
    }
    r
}

unsafe fn futex(addr: usize, op: i32, val: u32, ts: *const Timespec, mask: u32) -> i64 {
    let s = &mut *S;
    let me = s.cur;
    match op & 127 {
        0 | 9 => {
            stat(ST_FUTEX_WAIT, 1);
            if (*(addr as *const AtomicU32)).load(Ordering::SeqCst) != val {
                *__errno_location() = 11;
                return -1;
            }
            let deadline = if ts.is_null() {
                NEVER
            } else {
                let v = ((*ts).sec as u64).saturating_mul(1_000_000_000).saturating_add((*ts).nsec as u64);
                if op & 127 == 0 {
                    now_ns(s).saturating_add(v)
                } else {
                    v.saturating_sub(s.env.clock_base)
                }
            };
            s.seq += 1;
            let seq = s.seq;
            let t = &mut s.tasks[me];
            t.state = St::Futex;
            t.wait_addr = addr;
            t.wait_mask = if op & 127 == 9 { mask } else { u32::MAX };
            t.deadline = deadline;
            t.wait_seq = seq;
            t.timed_out = false;
            forced_away(s);
            let t = &mut (*S).tasks[me];
            if t.timed_out {
                t.timed_out = false;
                *__errno_location() = 110;
                return -1;
            }
            0
        }
        1 | 10 => {
            stat(ST_FUTEX_WAKE, 1);
            let m = if op & 127 == 10 { mask } else { u32::MAX };
            let mut woken = 0;
            while woken < val as i64 {
                let mut best: Option<usize> = None;
                for i in 1..s.n {
                    let t = &s.tasks[i];
                    if t.state == St::Futex && t.wait_addr == addr && t.wait_mask & m != 0 && best.is_none_or(|b| s.tasks[b].wait_seq > t.wait_seq) {
                        best = Some(i);
                    }
                }
                let Some(b) = best else { break };
                s.tasks[b].state = St::Runnable;
                s.tasks[b].deadline = NEVER;
                woken += 1;
            }
            woken
        }
        _ => {
            *__errno_location() = 38;
            -1
        }
    }
}

// ---------------------------------------------------------------- the random source
/// 0 real generator over simulated entropy; 1 constant; 2 sparse zeros; 3 short period;
/// 4 edge words only; 5 fails at draw `rng_arg`; 6 entropy fails; 7 one bit set;
/// 8 only draw number `rng_arg` is zero; 9 the first 8 bytes of every call are `rng_arg`.
#[no_mangle]
pub unsafe extern "C" fn simrt_rng_override(out: *mut u64) -> u32 {
    if !ACTIVE.get() {
        return 0;
    }
    let s = &mut *S;
    let k = s.rng_draws;
    s.rng_draws += 1;
    let a = s.env.rng_arg;
    let v = match s.env.rng_mode {
        0 | 6 => return 0,
        9 => {
            let t = &mut *CUR;
            t.draws += 1;
            if t.draws > 2 {
                s.entropy.next()
            } else {
                a >> (32 * (t.draws - 1))
            }
        }
        10 => seed_word(),
        1 => a,
        2 => {
            let w = s.entropy.next();
            if s.entropy.below(100) < a { 0 } else { w }
        }
        3 => {
            let p = k % (1 + a % 7);
            Rng::new(a.wrapping_add(p)).next()
        }
        4 => match s.entropy.below(6) {
            0 | 1 => 0,
            2 => 1,
            3 => u64::MAX,
            4 => 0x8000_0000_8000_0000,
            _ => 0x7fff_ffff_7fff_ffff,
        },
        5 => {
            if k >= a {
                stat(ST_RNG_FAIL, 1);
                return 2;
            }
            s.entropy.next()
        }
        7 => 1u64 << (s.entropy.below(64)),
        _ => {
            let w = s.entropy.next() | 1;
            if k % (1 + a % 9) == a % 3 { 0 } else { w }
        }
    };
    stat(ST_RNG_OVERRIDE, 1);
    *out = v;
    1
}

/// Keeps the interposed symbols in the link.
pub fn keep() -> usize {
    let k: [*const (); 23] = [
        pthread_create as *const (), pthread_join as *const (), pthread_detach as *const (), clock_gettime as *const (),
        nanosleep as *const (), clock_nanosleep as *const (), sched_yield as *const (), getenv as *const (),
        sched_getaffinity as *const (), getrandom as *const (), syscall as *const (), simrt_rng_override as *const (),
        __sanitizer_cov_trace_pc_guard as *const (), __sanitizer_cov_trace_pc_guard_init as *const (),
        __sanitizer_cov_trace_switch as *const (), __sanitizer_cov_trace_cmp2 as *const (), __sanitizer_cov_trace_const_cmp2 as *const (),
        __sanitizer_cov_load2 as *const (), __sanitizer_cov_store2 as *const (),
        getpid as *const (), getppid as *const (), getcwd as *const (), open64 as *const (),
    ];
    k.iter().map(|p| *p as usize & 1).sum()
}
