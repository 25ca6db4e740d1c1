//! The simulated machine. Library code runs here and only here: every basic-block edge, every
//! access to non-stack memory, every memory request, every chunk sent to a sink and every lock
//! wait of instrumented code comes through this file, which decides - as a function of the
//! scenario alone - who runs next and what goes wrong.
#![allow(static_mut_refs)]
use crate::scn::*;
use core::fmt;
use core::ptr::null_mut;
use core::sync::atomic::{AtomicU32, Ordering};
use gen::Rng;
use shim::Out;
use std::alloc::{GlobalAlloc, Layout, System};

pub const MAXT: usize = 6;
pub const NREC: usize = 8192;
pub const NSW: usize = 4096;
pub const MAX_NESTED: usize = 8;
pub const TEXT: usize = 1 << 17;
pub const HEAD: usize = 40;
/// Absolute bound on the steps of one call: nothing in the library comes near it.
pub const HARD_CAP: u64 = 3_000_000_000;

// ---------------------------------------------------------------------------------- records

pub const NOTRUN: u8 = 0;
pub const STARTED: u8 = 1;
pub const DONE: u8 = 2;
pub const PANICKED: u8 = 3;
pub const ALLOCFAIL: u8 = 4;
pub const SINKPANIC: u8 = 5;
pub const HANG: u8 = 6;
pub const STATE_NAMES: [&str; 7] = ["not run", "never returned", "returned", "panicked", "allocation failure", "sink panic unwound", "exceeded the step bound"];

#[repr(C)]
#[derive(Copy, Clone, Debug)]
pub struct Rec {
    pub out: Out,
    pub text_hash: u64,
    pub steps: u64,
    pub peak: u64,
    pub biggest: u64,
    pub live: i64,
    pub text_len: u32,
    /// Chunks the sink received after it had returned an error.
    pub after_err: u32,
    pub sink_errs: u32,
    pub allocs: u32,
    pub refused: u32,
    pub globs: u32,
    pub chunks: u32,
    /// Sticky floating-point exception flags raised during the call.
    pub fp_flags: u32,
    /// Control bits differ from what the host had set.
    pub fp_changed: u32,
    /// Which step of which program (logs of durable programs).
    pub tag: u32,
    pub state: u8,
    pub nested_in: u8,
    pub thread: u8,
    pub pad: u8,
    pub head: [u8; HEAD],
}

impl Rec {
    pub const EMPTY: Rec = Rec {
        out: Out { bits: 0, ival: 0, aux: 0, status: 0, flag: 0, res: 0, has_val: 0 },
        text_hash: 0,
        steps: 0,
        peak: 0,
        biggest: 0,
        live: 0,
        text_len: 0,
        after_err: 0,
        sink_errs: 0,
        allocs: 0,
        refused: 0,
        globs: 0,
        chunks: 0,
        fp_flags: 0,
        fp_changed: 0,
        tag: 0,
        state: NOTRUN,
        nested_in: 0,
        thread: 0,
        pad: 0,
        head: [0; HEAD],
    };
    pub fn same(&self, o: &Rec) -> bool {
        self.state == o.state && self.out == o.out && self.text_len == o.text_len && self.text_hash == o.text_hash
    }
    pub fn show(&self) -> String {
        let o = &self.out;
        let mut s = format!("{}:", STATE_NAMES[self.state as usize % 7]);
        if o.has_val == 1 {
            s.push_str(&format!(" bits={:x}", o.bits));
        }
        s.push_str(&format!(" ival={:x} aux={:x} status={:05b} flag={} res={}", o.ival, o.aux, o.status, o.flag, ["-", "Ok", "Err"][o.res as usize % 3]));
        if self.text_len > 0 {
            let n = (self.text_len as usize).min(HEAD);
            s.push_str(&format!(" text[{}]={:?}{}", self.text_len, String::from_utf8_lossy(&self.head[..n]), if self.text_len as usize > HEAD { "..." } else { "" }));
        }
        s
    }
}

#[repr(C)]
#[derive(Copy, Clone, Debug, Default)]
pub struct SwRec {
    pub thread: u8,
    /// 0 start of op, 1 step, 2 block, 3 end of op.
    pub kind: u8,
    pub target: u8,
    pub pad: u8,
    pub op: u32,
    pub k: u64,
}

/// Memory shared with the parent: what one run leaves behind.
#[repr(C)]
pub struct Shared {
    pub recs: [Rec; NREC],
    pub sw: [SwRec; NSW],
    pub nsw: u32,
    pub sw_lost: u32,
    pub first: u32,
    pub deadlock: u32,
    pub crash: u32,
    pub crash_arg: u64,
    pub nlog: u32,
    pub mismatch: i64,
    pub calls: u64,
    pub ticks: u64,
    pub heap_live: i64,
    pub fired: [u64; 12],
    pub text_len: u32,
    pub text: [u8; TEXT],
    pub disk: crate::dur::Disk,
}

impl Shared {
    pub unsafe fn reset(&mut self, nrec: usize) {
        for r in &mut self.recs[..nrec.min(NREC)] {
            *r = Rec::EMPTY;
        }
        for r in &mut self.recs[NREC - MAX_NESTED..] {
            *r = Rec::EMPTY;
        }
        self.nsw = 0;
        self.sw_lost = 0;
        self.first = 0;
        self.deadlock = 0;
        self.crash = 0;
        self.crash_arg = 0;
        self.nlog = 0;
        self.mismatch = -1;
        self.calls = 0;
        self.ticks = 0;
        self.heap_live = 0;
        self.fired = [0; 12];
        self.text_len = 0;
    }
}

// ----------------------------------------------------------------------------- thread state

#[derive(Copy, Clone)]
pub struct OpState {
    pub active: bool,
    pub in_op: bool,
    pub ticks: u64,
    pub next: u64,
    pub next_preempt: u64,
    pub done_upto: u64,
    pub cap: u64,
    pub globs: u64,
    pub allocs: u64,
    pub refused: u64,
    pub refuse_all: bool,
    pub blocks: u64,
    pub live: i64,
    pub peak: i64,
    pub biggest: u64,
    pub env: u64,
    pub fp_flags: u32,
    pub faults: *const [Fault],
    pub rec: *mut Rec,
}

const NO_FAULTS: *const [Fault] = &[];

impl OpState {
    const IDLE: OpState = OpState {
        active: false,
        in_op: false,
        ticks: 0,
        next: u64::MAX,
        next_preempt: u64::MAX,
        done_upto: 0,
        cap: u64::MAX,
        globs: 0,
        allocs: 0,
        refused: 0,
        refuse_all: false,
        blocks: 0,
        live: 0,
        peak: 0,
        biggest: 0,
        env: 0,
        fp_flags: 0,
        faults: NO_FAULTS,
        rec: null_mut(),
    };
}

const READY: u8 = 0;
const BLOCKED: u8 = 1;
const STALLED: u8 = 2;
const FINISHED: u8 = 3;

pub struct Tcb {
    pub id: usize,
    wake: AtomicU32,
    status: u8,
    addr: usize,
    pub op: usize,
    stack_lo: usize,
    stack_len: usize,
    last_guard: u32,
    pub o: OpState,
}

impl Tcb {
    const NEW: Tcb = Tcb { id: 0, wake: AtomicU32::new(0), status: READY, addr: 0, op: 0, stack_lo: 0, stack_len: 0, last_guard: 0, o: OpState::IDLE };
}

#[thread_local]
static mut ME: *mut Tcb = null_mut();

pub struct Sim {
    pub sh: *mut Shared,
    tcbs: [Tcb; MAXT],
    n: usize,
    seeded: bool,
    rng: Rng,
    gap: u64,
    p_start: u64,
    switches: u64,
    max_switches: u64,
    pub glob_lo: usize,
    glob_len: usize,
    image_lo: usize,
    image_len: usize,
    pub cov: *mut u8,
    pub cov_len: usize,
    pairs: *mut u8,
    done: AtomicU32,
    nested: *const [Step],
    // allocator
    arena: usize,
    bump: usize,
    free: [usize; 48],
    pers: Pers,
    poison: u64,
    pub live: i64,
    keep_text: bool,
    cap_heap: bool,
    /// A call that takes more steps than this will not end: stop it.
    pub step_cap: u64,
    /// Tighter bounds for the calls of a run, by thread and step.
    pub caps: *const [Vec<u64>],
    limit: i64,
}

pub const ARENA: usize = 1 << 30;
pub const PAIRS: usize = 1 << 22;
const FAIR: u64 = 1_000_000;

#[derive(Copy, Clone, Default)]
pub struct Pers {
    /// 0 no poison; 1 zeros; 2 ones; 3 pattern; 4 pseudo-random.
    pub poison: u8,
    /// Blocks at the least alignment allowed.
    pub odd: bool,
    /// 0 newest freed block first; 1 never reuse; 2 reuse with garbage from a larger class.
    pub reuse: u8,
    /// Grow: 0 in place when it fits; 1 always move.
    pub moves: bool,
}

impl Pers {
    pub fn from(n: i64) -> Pers {
        let n = n as u64;
        Pers { poison: (n % 5) as u8, odd: n / 5 % 2 == 1, reuse: (n / 10 % 2) as u8, moves: n / 20 % 2 == 1 }
    }
}
pub const N_PERS: u64 = 40;

pub static mut G: Sim = Sim {
    sh: null_mut(),
    tcbs: [Tcb::NEW, Tcb::NEW, Tcb::NEW, Tcb::NEW, Tcb::NEW, Tcb::NEW],
    n: 0,
    seeded: false,
    rng: Rng(0),
    gap: 0,
    p_start: 0,
    switches: 0,
    max_switches: 0,
    glob_lo: 0,
    glob_len: 0,
    image_lo: 0,
    image_len: 0,
    cov: null_mut(),
    cov_len: 0,
    pairs: null_mut(),
    done: AtomicU32::new(0),
    nested: &[],
    arena: 0,
    bump: 0,
    free: [0; 48],
    pers: Pers { poison: 0, odd: false, reuse: 0, moves: false },
    poison: 0,
    live: 0,
    keep_text: false,
    cap_heap: false,
    step_cap: HARD_CAP,
    caps: &[],
    limit: i64::MAX,
};

extern "C" {
    static __data_start: u8;
    static _end: u8;
    static __executable_start: u8;
}

pub unsafe fn map_shared(len: usize) -> *mut u8 {
    let p = libc::mmap(null_mut(), len, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
    assert!(p != libc::MAP_FAILED);
    p as *mut u8
}

/// Once per process that will fork runs.
pub unsafe fn init() {
    G.glob_lo = &raw const __data_start as usize;
    G.glob_len = &raw const _end as usize - G.glob_lo;
    G.image_lo = &raw const __executable_start as usize;
    G.image_len = &raw const _end as usize - G.image_lo;
    let p = libc::mmap(null_mut(), ARENA, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
    assert!(p != libc::MAP_FAILED);
    G.arena = p as usize;
    G.bump = G.arena + 64;
    if G.pairs.is_null() {
        G.cov_len = GUARDS as usize + 1;
        G.cov = map_shared(G.cov_len);
        G.pairs = map_shared(PAIRS / 8);
    }
    std::alloc::set_alloc_error_hook(|_| {
        unsafe {
            if ME.is_null() || !(*ME).o.in_op {
                libc::_exit(90);
            }
        }
        std::panic::panic_any(AllocFail)
    });
    std::panic::set_hook(Box::new(|i| unsafe {
        if ME.is_null() || !(*ME).o.in_op {
            let s = format!("simulator panic: {i}\n");
            libc::write(2, s.as_ptr() as *const _, s.len());
            return;
        }
        (*ME).o.active = false;
    }));
}

pub unsafe fn coverage() -> (usize, usize) {
    let c = (0..G.cov_len).filter(|&i| *G.cov.add(i) != 0).count();
    (c, G.cov_len.saturating_sub(1))
}
pub unsafe fn pair_count() -> usize {
    (0..PAIRS / 8).map(|i| (*G.pairs.add(i)).count_ones() as usize).sum()
}

struct AllocFail;
struct SinkPanic;

// -------------------------------------------------------------------------- raw system calls

unsafe fn sys6(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    core::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}

unsafe fn futex_wait(w: &AtomicU32, v: u32) {
    sys6(libc::SYS_futex, w as *const _ as i64, 128, v as i64, 0, 0, 0);
}
unsafe fn futex_wake(w: &AtomicU32) {
    sys6(libc::SYS_futex, w as *const _ as i64, 129, 1, 0, 0, 0);
}

/// Stands in for the C library's `syscall`: lock waits and wake-ups of code under simulation
/// become scheduling decisions; everything else goes to the kernel.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if n == libc::SYS_futex && !ME.is_null() && (*ME).o.in_op {
        let t = ME;
        let op = b & 0x7f;
        if op == 0 || op == 9 {
            let w = &*(a as *const AtomicU32);
            if w.load(Ordering::SeqCst) != c as u32 {
                *libc::__errno_location() = libc::EAGAIN;
                return -1;
            }
            let was = (*t).o.active;
            (*t).o.active = false;
            if G.n < 2 {
                (*G.sh).deadlock = 1;
                libc::_exit(80);
            }
            (*t).status = BLOCKED;
            (*t).addr = a as usize;
            (*t).o.blocks += 1;
            leave(t, 2, (*t).o.blocks);
            (*t).o.active = was;
            return 0;
        }
        if op == 1 || op == 10 {
            let mut left = c;
            let mut woken = 0;
            for i in 0..G.n {
                let x = &mut G.tcbs[i];
                if left > 0 && x.status == BLOCKED && x.addr == a as usize {
                    x.status = READY;
                    left -= 1;
                    woken += 1;
                }
            }
            return woken;
        }
    }
    let r = sys6(n, a, b, c, d, e, f);
    if r < 0 && r > -4096 {
        *libc::__errno_location() = -r as i32;
        return -1;
    }
    r
}

// ----------------------------------------------------------------------------- the scheduler

unsafe fn hand_to(i: usize) {
    G.tcbs[i].wake.store(1, Ordering::SeqCst);
    futex_wake(&G.tcbs[i].wake);
}
unsafe fn wait_turn(t: *mut Tcb) {
    while (*t).wake.swap(0, Ordering::SeqCst) == 0 {
        futex_wait(&(*t).wake, 0);
    }
}
unsafe fn all_over() {
    if (0..G.n).any(|i| G.tcbs[i].status == BLOCKED) {
        (*G.sh).deadlock = 1;
    }
    G.done.store(1, Ordering::SeqCst);
    futex_wake(&G.done);
}

unsafe fn ready_other(me: usize) -> ([usize; MAXT], usize) {
    let mut v = [0; MAXT];
    let mut n = 0;
    for i in 0..G.n {
        if i != me && G.tcbs[i].status == READY {
            v[n] = i;
            n += 1;
        }
    }
    (v, n)
}

unsafe fn note_switch(t: *mut Tcb, kind: u8, k: u64, to: usize) {
    let sh = &mut *G.sh;
    sh.fired[9] += 1;
    if (sh.nsw as usize) < NSW {
        sh.sw[sh.nsw as usize] = SwRec { thread: (*t).id as u8, kind, target: to as u8, pad: 0, op: (*t).op as u32, k };
        sh.nsw += 1;
    } else {
        sh.sw_lost = 1;
    }
    let a = (*t).last_guard as u64;
    let b = G.tcbs[to].last_guard as u64;
    let h = gen::mix(a << 32 | b) % PAIRS as u64;
    let (p, bit) = (G.pairs.add(h as usize / 8), 1u8 << (h % 8));
    if *p & bit == 0 {
        *p |= bit;
    }
}

/// The running thread gives way to `to` and stays ready.
unsafe fn give_way(t: *mut Tcb, kind: u8, k: u64, to: usize) {
    if to == (*t).id || to >= G.n || G.tcbs[to].status != READY {
        return;
    }
    note_switch(t, kind, k, to);
    G.switches += 1;
    hand_to(to);
    wait_turn(t);
}

/// The running thread cannot go on (blocked, stalled, finished): somebody else must.
unsafe fn leave(t: *mut Tcb, kind: u8, k: u64) {
    let (v, n) = ready_other((*t).id);
    if n == 0 {
        all_over();
    } else {
        let mut to = v[0];
        if G.seeded {
            to = v[G.rng.below(n as u64) as usize];
        } else {
            let want = |f: &&Fault| match f.at {
                Point::Block(j) => kind == 2 && j == k,
                Point::End => kind == 3,
                _ => false,
            };
            if let Some(Fault { act: Act::Switch(x), .. }) = (&*(*t).o.faults).iter().find(want) {
                if v[..n].contains(&(*x as usize)) {
                    to = *x as usize;
                }
            }
        }
        note_switch(t, kind, k, to);
        hand_to(to);
    }
    if (*t).status != FINISHED {
        wait_turn(t);
        // A stalled thread is never handed the baton; a blocked one was made ready.
    }
}

unsafe fn seeded_preempt(t: *mut Tcb, kind: u8, k: u64) {
    let (v, n) = ready_other((*t).id);
    if n > 0 {
        let to = v[G.rng.below(n as u64) as usize];
        give_way(t, kind, k, to);
    }
}

unsafe fn draw_preempt(t: *mut Tcb) {
    let o = &mut (*t).o;
    o.next_preempt = if G.n < 2 {
        u64::MAX
    } else if G.seeded && G.switches < G.max_switches {
        o.ticks + G.rng.gap(G.gap)
    } else {
        o.ticks + FAIR
    };
}

unsafe fn set_next(t: *mut Tcb) {
    let o = &mut (*t).o;
    let mut n = o.cap.min(o.next_preempt);
    for f in &*o.faults {
        if let Point::Step(k) = f.at {
            if k > o.done_upto && k < n {
                n = k;
            }
        }
    }
    o.next = n;
}

#[cold]
#[inline(never)]
unsafe fn slow(t: *mut Tcb) {
    let was = (*t).o.active;
    (*t).o.active = false;
    let now = (*t).o.ticks;
    if now >= (*t).o.cap {
        (*(*t).o.rec).state = HANG;
        (*(*t).o.rec).steps = now;
        libc::_exit(78);
    }
    let from = (*t).o.done_upto;
    (*t).o.done_upto = now;
    let fs = &*(*t).o.faults;
    for f in fs {
        if let Point::Step(k) = f.at {
            if k > from && k <= now {
                act(t, f.act, 1, k);
            }
        }
    }
    if now >= (*t).o.next_preempt {
        if G.seeded && G.switches < G.max_switches {
            seeded_preempt(t, 1, now);
        } else {
            // Fairness: a spinning thread does not starve the others.
            let me = (*t).id;
            for d in 1..G.n {
                let to = (me + d) % G.n;
                if G.tcbs[to].status == READY {
                    give_way(t, 1, now, to);
                    break;
                }
            }
        }
        draw_preempt(t);
    }
    set_next(t);
    (*t).o.active = was;
}

unsafe fn act(t: *mut Tcb, a: Act, kind: u8, k: u64) {
    let sh = &mut *G.sh;
    if !matches!(a, Act::Switch(_)) {
        sh.fired[act_index(&a)] += 1;
    }
    match a {
        Act::Env(i) => env_switch(t, i),
        Act::Stall => {
            (*t).status = STALLED;
            if G.n > 1 {
                leave(t, 2, u64::MAX);
            }
            libc::_exit(79);
        }
        Act::Switch(to) => give_way(t, kind, k, to as usize),
        Act::Crash(x) => {
            sh.crash = 1;
            sh.crash_arg = x;
            libc::_exit(77);
        }
        Act::RefuseAll => (*t).o.refuse_all = true,
        _ => {}
    }
}

#[inline(always)]
unsafe fn tick(t: *mut Tcb) {
    let n = (*t).o.ticks + 1;
    (*t).o.ticks = n;
    if n >= (*t).o.next {
        slow(t);
    }
}

// ------------------------------------------------------------ callbacks of instrumented code

static mut GUARDS: u32 = 0;

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(mut p: *mut u32, end: *mut u32) {
    while p < end {
        if *p == 0 {
            GUARDS += 1;
            *p = GUARDS;
        }
        p = p.add(1);
    }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *const u32) {
    let t = ME;
    if t.is_null() || !(*t).o.active {
        return;
    }
    let id = *g;
    (*t).last_guard = id;
    // Written once: the page is shared by all workers.
    let seen = G.cov.add(id as usize);
    if *seen == 0 {
        *seen = 1;
    }
    tick(t);
}

#[inline(always)]
unsafe fn access(a: usize) {
    let t = ME;
    if t.is_null() || !(*t).o.active || a.wrapping_sub((*t).stack_lo) < (*t).stack_len {
        return;
    }
    shared_access(t, a);
}

#[inline(never)]
unsafe fn shared_access(t: *mut Tcb, a: usize) {
    let global = a.wrapping_sub(G.glob_lo) < G.glob_len;
    if !global && a.wrapping_sub(G.image_lo) < G.image_len {
        return; // constants
    }
    tick(t);
    if global {
        (*t).o.globs += 1;
        let n = (*t).o.globs;
        let fs = &*(*t).o.faults;
        if fs.iter().any(|f| f.at == Point::Glob(n)) {
            (*t).o.active = false;
            for f in fs {
                if f.at == Point::Glob(n) {
                    act(t, f.act, 1, (*t).o.ticks);
                }
            }
            (*t).o.active = true;
        }
    }
    if G.n > 1 && G.seeded && G.switches < G.max_switches {
        let d = if global { 3 } else { 50 };
        if G.rng.below(d) == 0 {
            (*t).o.active = false;
            seeded_preempt(t, 1, (*t).o.ticks);
            draw_preempt(t);
            set_next(t);
            (*t).o.active = true;
        }
    }
}

macro_rules! mem_cb {
    ($($l:ident $s:ident),*) => {$(
        #[no_mangle]
        pub unsafe extern "C" fn $l(a: usize) { access(a) }
        #[no_mangle]
        pub unsafe extern "C" fn $s(a: usize) { access(a) }
    )*};
}
mem_cb!(__sanitizer_cov_load1 __sanitizer_cov_store1, __sanitizer_cov_load2 __sanitizer_cov_store2, __sanitizer_cov_load4 __sanitizer_cov_store4, __sanitizer_cov_load8 __sanitizer_cov_store8, __sanitizer_cov_load16 __sanitizer_cov_store16);

// -------------------------------------------------------------------- simulated memory device

pub struct SimAlloc;
#[global_allocator]
static A: SimAlloc = SimAlloc;

#[repr(C)]
struct Head {
    cap: usize,
    class: usize,
    size: usize,
    base: usize,
}
const HSZ: usize = core::mem::size_of::<Head>();

unsafe fn in_arena(p: *mut u8) -> bool {
    (p as usize).wrapping_sub(G.arena) < ARENA && G.arena != 0
}

unsafe fn poison(p: *mut u8, n: usize) {
    match G.pers.poison {
        0 => {}
        1 => core::ptr::write_bytes(p, 0, n),
        2 => core::ptr::write_bytes(p, 0xff, n),
        3 => core::ptr::write_bytes(p, 0xa5, n),
        _ => {
            for i in 0..n {
                G.poison = G.poison.wrapping_mul(0x9e3779b97f4a7c15).wrapping_add(0x7f4a7c15);
                *p.add(i) = (G.poison >> 56) as u8;
            }
        }
    }
}

/// One memory request by library code: counted, maybe refused.
unsafe fn request(t: *mut Tcb, size: usize) -> bool {
    tick(t);
    (*t).o.allocs += 1;
    let k = (*t).o.allocs;
    if size as u64 > (*t).o.biggest {
        (*t).o.biggest = size as u64;
    }
    let mut ok = !(*t).o.refuse_all;
    for f in &*(*t).o.faults {
        if f.at == Point::Alloc(k) {
            match f.act {
                Act::Refuse => {
                    (*G.sh).fired[5] += 1;
                    ok = false
                }
                Act::RefuseAll => {
                    (*G.sh).fired[6] += 1;
                    (*t).o.refuse_all = true;
                    ok = false
                }
                a => {
                    (*t).o.active = false;
                    act(t, a, 1, (*t).o.ticks);
                    (*t).o.active = true;
                }
            }
        }
    }
    if G.n > 1 && G.seeded && G.switches < G.max_switches && G.rng.below(8) == 0 {
        (*t).o.active = false;
        seeded_preempt(t, 1, (*t).o.ticks);
        draw_preempt(t);
        set_next(t);
        (*t).o.active = true;
    }
    if !ok {
        (*t).o.refused += 1;
    }
    if (*t).o.live + size as i64 > G.limit {
        // Far more than the bound: note how much and end the call here.
        (*t).o.peak = (*t).o.peak.max((*t).o.live + size as i64);
        ok = false;
    }
    ok
}

unsafe fn grab(t: *mut Tcb, l: Layout) -> *mut u8 {
    let size = l.size().max(1);
    let align = l.align().max(16);
    if size > ARENA / 2 {
        return null_mut();
    }
    let slack = if G.pers.odd { align } else { 0 };
    let class = (size + align + slack + HSZ).next_power_of_two().trailing_zeros() as usize;
    let mut base = 0;
    if G.pers.reuse == 0 && G.free[class] != 0 {
        base = G.free[class];
        G.free[class] = *(base as *const usize);
    }
    if base == 0 {
        let n = 1usize << class;
        if G.bump + n > G.arena + ARENA {
            return null_mut();
        }
        base = G.bump;
        G.bump += n;
    }
    let al = l.align();
    let mut p = (base + HSZ + align - 1) & !(align - 1);
    if G.pers.odd && al < 16 {
        p += al;
    }
    let h = (p - HSZ) as *mut Head;
    core::ptr::write_unaligned(h, Head { cap: base + (1 << class) - p, class, size, base });
    poison(p as *mut u8, size);
    let o = &mut (*t).o;
    o.live += size as i64;
    o.peak = o.peak.max(o.live);
    G.live += size as i64;
    p as *mut u8
}

unsafe fn give_back(p: *mut u8) {
    let h = core::ptr::read_unaligned((p as usize - HSZ) as *const Head);
    if !ME.is_null() {
        (*ME).o.live -= h.size as i64;
    }
    G.live -= h.size as i64;
    poison(p, h.size);
    if G.pers.reuse == 0 {
        *(h.base as *mut usize) = G.free[h.class];
        G.free[h.class] = h.base;
    }
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let t = ME;
        // The panic runtime needs memory for its message and its exception: not a request of
        // the library, and refusing it would abort whatever the library did.
        if t.is_null() || !(*t).o.active || std::thread::panicking() {
            return System.alloc(l);
        }
        if !request(t, l.size()) {
            return null_mut();
        }
        grab(t, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let t = ME;
        if t.is_null() || !(*t).o.active || std::thread::panicking() {
            return System.alloc_zeroed(l);
        }
        let p = self.alloc(l);
        if !p.is_null() {
            core::ptr::write_bytes(p, 0, l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if in_arena(p) {
            give_back(p);
        } else {
            System.dealloc(p, l);
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let t = ME;
        let act = !t.is_null() && (*t).o.active && !std::thread::panicking();
        if !act && !in_arena(p) {
            return System.realloc(p, l, n);
        }
        if act && !request(t, n) {
            return null_mut();
        }
        if act && in_arena(p) && !G.pers.moves {
            let h = (p as usize - HSZ) as *mut Head;
            let mut hd = core::ptr::read_unaligned(h);
            if n <= hd.cap {
                if n > hd.size {
                    poison(p.add(hd.size), n - hd.size);
                }
                let d = n as i64 - hd.size as i64;
                hd.size = n;
                core::ptr::write_unaligned(h, hd);
                (*t).o.live += d;
                (*t).o.peak = (*t).o.peak.max((*t).o.live);
                G.live += d;
                return p;
            }
        }
        let nl = Layout::from_size_align_unchecked(n, l.align());
        let q = if act { grab(t, nl) } else { System.alloc(nl) };
        if !q.is_null() {
            core::ptr::copy_nonoverlapping(p, q, l.size().min(n));
            self.dealloc(p, l);
        }
        q
    }
}

// ------------------------------------------------------------------ host floating-point state

pub fn env_words(i: u64) -> (u32, u16) {
    let mut mx = 0x1f80u32 | ((i & 3) as u32) << 13 | ((i >> 2 & 1) as u32) << 15 | ((i >> 3 & 1) as u32) << 6;
    if i >> 4 & 1 == 1 {
        mx &= !0x1f80;
    }
    let pc = match i >> 7 & 3 {
        0 => 0u16,
        1 | 2 => 2,
        _ => 3,
    };
    let mut cw = 0x007f | ((i >> 5 & 3) as u16) << 10 | pc << 8;
    if i >> 9 & 1 == 1 {
        cw &= !0x3f;
    }
    (mx, cw)
}
/// The configuration programs start with.
pub const ENV_DEFAULT: u64 = 3 << 7;

unsafe fn get_mxcsr() -> u32 {
    let mut x = 0u32;
    core::arch::asm!("stmxcsr [{}]", in(reg) &mut x, options(nostack));
    x
}
unsafe fn set_mxcsr(x: u32) {
    core::arch::asm!("ldmxcsr [{}]", in(reg) &x, options(nostack));
}
unsafe fn get_x87() -> (u16, u16) {
    let mut cw = 0u16;
    let sw: u16;
    core::arch::asm!("fnstcw [{}]", in(reg) &mut cw, options(nostack));
    core::arch::asm!("fnstsw ax", out("ax") sw, options(nostack));
    (cw, sw)
}
unsafe fn set_x87(cw: u16) {
    core::arch::asm!("fnclex", "fldcw [{}]", in(reg) &cw, options(nostack));
}

unsafe fn env_switch(t: *mut Tcb, i: u64) {
    // Flags raised so far stay on record; control words the library may have changed do too.
    let o = &mut (*t).o;
    o.fp_flags |= get_mxcsr() & 0x3f | (get_x87().1 as u32 & 0x3f) << 8;
    o.env = i;
    let (mx, cw) = env_words(i);
    set_mxcsr(mx);
    set_x87(cw);
}

// --------------------------------------------------------------------- simulated output device

struct Sink {
    t: *mut Tcb,
    rec: *mut Rec,
    failed: bool,
    forever: bool,
    hash: u64,
    len: u32,
    chunks: u64,
}

impl Sink {
    unsafe fn take(&mut self, s: &[u8]) {
        let rec = &mut *self.rec;
        for &b in s {
            self.hash = (self.hash ^ b as u64).wrapping_mul(0x100000001b3);
            if (self.len as usize) < HEAD {
                rec.head[self.len as usize] = b;
            }
            if G.keep_text && (self.len as usize) < TEXT {
                (*G.sh).text[self.len as usize] = b;
                (*G.sh).text_len = self.len + 1;
            }
            self.len += 1;
        }
        rec.text_hash = self.hash;
        rec.text_len = self.len;
    }
}

pub const FNV: u64 = 0xcbf29ce484222325;
pub fn text_hash(s: &[u8]) -> u64 {
    s.iter().fold(FNV, |h, &b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}

impl fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        unsafe {
            let t = self.t;
            tick(t);
            (*t).o.active = false;
            self.chunks += 1;
            (*self.rec).chunks = self.chunks as u32;
            if G.n > 1 && G.seeded && G.switches < G.max_switches && G.rng.below(4) == 0 {
                seeded_preempt(t, 1, (*t).o.ticks);
                draw_preempt(t);
                set_next(t);
            }
            if self.failed {
                (*self.rec).after_err += 1;
            }
            let r = self.deliver(s.as_bytes());
            if r.is_err() {
                self.failed = true;
                (*self.rec).sink_errs += 1;
            }
            (*t).o.active = true;
            r
        }
    }
}

impl Sink {
    unsafe fn deliver(&mut self, s: &[u8]) -> fmt::Result {
        if self.forever {
            return Err(fmt::Error);
        }
        let t = self.t;
        let fs = &*(*t).o.faults;
        let lo = self.len as u64;
        let hi = lo + s.len() as u64;
        for f in fs {
            // Byte positions count from 0: the fault strikes when this byte would be accepted.
            let (hit, keep) = match f.at {
                Point::Chunk(k) => (k == self.chunks, 0),
                Point::Char(k) => (k >= lo && k < hi, (k - lo.min(k)) as usize),
                _ => (false, 0),
            };
            if !hit {
                continue;
            }
            let sh = &mut *G.sh;
            match f.act {
                Act::Err => {
                    sh.fired[0] += 1;
                    return Err(fmt::Error);
                }
                Act::ErrForever => {
                    sh.fired[1] += 1;
                    self.forever = true;
                    return Err(fmt::Error);
                }
                Act::Partial => {
                    sh.fired[2] += 1;
                    let mut keep = keep.min(s.len());
                    while keep > 0 && s[keep..].first().is_some_and(|b| b & 0xc0 == 0x80) {
                        keep -= 1;
                    }
                    self.take(&s[..keep]);
                    return Err(fmt::Error);
                }
                Act::Panic => {
                    sh.fired[3] += 1;
                    std::panic::panic_any(SinkPanic);
                }
                Act::Nest(i) => {
                    sh.fired[4] += 1;
                    let saved = (*t).o;
                    let n = (*G.nested).len();
                    if (i as usize) < n {
                        let i = i as usize;
                        let rec = &mut (*G.sh).recs[NREC - 1 - i];
                        let before = *rec;
                        do_op(t, &(&*G.nested)[i], rec);
                        if before.state != NOTRUN && !before.same(rec) {
                            // Made before, and answered differently: whichever answer is kept is
                            // not to pass for the right one.
                            rec.text_hash ^= 0x5555;
                        }
                    }
                    (*t).o = saved;
                    let (mx, cw) = env_words(saved.env);
                    set_mxcsr(mx);
                    set_x87(cw);
                }
                a => act(t, a, 1, (*t).o.ticks),
            }
        }
        self.take(s);
        Ok(())
    }
}

// --------------------------------------------------------------------------- one library call

/// Runs one library call under the simulator and writes down everything observable about it.
pub unsafe fn guarded<R>(t: *mut Tcb, faults: &[Fault], rec: *mut Rec, f: impl FnOnce(&mut dyn fmt::Write) -> (Out, R)) -> Option<R> {
    *rec = Rec { state: STARTED, tag: (*rec).tag, thread: (*t).id as u8, text_hash: FNV, ..Rec::EMPTY };
    (*t).o = OpState { in_op: true, cap: G.step_cap.min(HARD_CAP), faults: faults as *const [Fault], rec, env: ENV_DEFAULT, ..OpState::IDLE };
    set_mxcsr(0x1f80);
    set_x87(0x37f);
    for f in faults {
        if f.at == Point::Start {
            act(t, f.act, 0, 0);
        }
    }
    if G.n > 1 && G.seeded && G.switches < G.max_switches && G.rng.below(4) < G.p_start {
        seeded_preempt(t, 0, 0);
    }
    draw_preempt(t);
    set_next(t);
    let mut sink = Sink { t, rec, failed: false, forever: false, hash: FNV, len: 0, chunks: 0 };
    (*t).o.active = true;
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut sink)));
    (*t).o.active = false;
    let mx = get_mxcsr();
    let (cw, sw) = get_x87();
    let (emx, ecw) = env_words((*t).o.env);
    (*rec).fp_flags = (*t).o.fp_flags | mx & 0x3f | (sw as u32 & 0x3f) << 8;
    (*rec).fp_changed = ((mx & !0x3f) != (emx & !0x3f) || cw & 0x0f3f != ecw & 0x0f3f) as u32;
    set_mxcsr(0x1f80);
    set_x87(0x37f);
    let mut val = None;
    (*rec).state = match r {
        Ok((o, v)) => {
            (*rec).out = o;
            val = Some(v);
            DONE
        }
        Err(e) => {
            let s = if e.is::<AllocFail>() {
                ALLOCFAIL
            } else if e.is::<SinkPanic>() {
                SINKPANIC
            } else {
                PANICKED
            };
            drop(e);
            s
        }
    };
    let o = &(*t).o;
    (*rec).steps = o.ticks;
    (*rec).allocs = o.allocs as u32;
    (*rec).refused = o.refused as u32;
    (*rec).globs = o.globs as u32;
    (*rec).live = o.live;
    (*rec).peak = o.peak as u64;
    (*rec).biggest = o.biggest;
    (*G.sh).calls += 1;
    (*G.sh).ticks += o.ticks;
    for f in faults {
        if f.at == Point::End && !matches!(f.act, Act::Switch(_)) {
            act(t, f.act, 3, 0);
        }
    }
    (*t).o.in_op = false;
    val
}

/// Where callers keep the text they parse: one buffer per thread, used again and again, so that
/// different texts meet the library at the same address.
const INPUT: usize = 1 << 14;
static mut INPUTS: [[u8; INPUT]; MAXT] = [[0; INPUT]; MAXT];

pub unsafe fn do_op(t: *mut Tcb, st: &Step, rec: *mut Rec) {
    let mut call = st.call.call();
    let n = call.text.len();
    if n <= INPUT {
        let b = &mut INPUTS[(*t).id % MAXT];
        b[..n].copy_from_slice(call.text.as_bytes());
        call.text = core::str::from_utf8_unchecked(&b[..n]);
    }
    G.step_cap = 10 * crate::props::step_bound(&st.call);
    if let Some(&c) = (*G.caps).get((*t).id).and_then(|v| v.get((*t).op)) {
        G.step_cap = G.step_cap.min(c);
    }
    G.limit = if G.cap_heap { 2 * crate::props::heap_bound(&st.call) as i64 } else { i64::MAX };
    guarded(t, &st.faults, rec, |w| (shim::exec(&call, w), ()));
}

// -------------------------------------------------------------------------------- run set-up

unsafe fn stack_bounds(t: *mut Tcb) {
    let mut a: libc::pthread_attr_t = core::mem::zeroed();
    libc::pthread_getattr_np(libc::pthread_self(), &mut a);
    let mut lo = null_mut();
    let mut n = 0;
    libc::pthread_attr_getstack(&a, &mut lo, &mut n);
    libc::pthread_attr_destroy(&mut a);
    (*t).stack_lo = lo as usize;
    (*t).stack_len = n;
}

/// In a fresh child: configure the machine for a scenario.
pub unsafe fn configure(sc: &Scenario) {
    G.n = sc.threads.len().max(1);
    G.seeded = sc.params.contains_key("sched");
    G.rng = Rng::new(sc.p("sched") as u64, 77, 0);
    G.gap = sc.p("gap").max(1) as u64;
    G.p_start = sc.p("pstart") as u64;
    G.max_switches = 1500;
    G.switches = 0;
    G.pers = Pers::from(sc.p("pers"));
    G.poison = sc.p("pers") as u64 ^ 0x1234567;
    G.nested = &sc.nested[..] as *const [Step];
    G.keep_text = sc.p("keeptext") != 0;
    G.cap_heap = sc.p("capheap") != 0;
    G.limit = i64::MAX;
}

/// Become the only simulated thread.
pub unsafe fn adopt_main() -> *mut Tcb {
    G.n = 1;
    let t = &mut G.tcbs[0] as *mut Tcb;
    (*t).id = 0;
    stack_bounds_main(t);
    ME = t;
    t
}

unsafe fn stack_bounds_main(t: *mut Tcb) {
    // pthread_getattr_np reads /proc/self/maps for the main thread: too slow for every run.
    let here = &t as *const _ as usize;
    (*t).stack_lo = here.saturating_sub(8 << 20);
    (*t).stack_len = 9 << 20;
}

/// Runs all threads of the scenario; `rec_of(thread, op)` is where an outcome goes.
pub unsafe fn run_threads(sc: &'static Scenario) {
    let n = sc.threads.len();
    if n == 1 {
        let t = adopt_main();
        for (i, st) in sc.threads[0].iter().enumerate() {
            (*t).op = i;
            do_op(t, st, &mut (*G.sh).recs[i]);
        }
        (*G.sh).heap_live = G.live;
        return;
    }
    G.n = n;
    let mut base = 0;
    for i in 0..n {
        G.tcbs[i].id = i;
        G.tcbs[i].status = READY;
        let steps: &'static [Step] = &sc.threads[i];
        let b = base;
        base += steps.len();
        let r = std::thread::Builder::new().stack_size(1 << 20).spawn(move || {
            let t = &mut G.tcbs[i] as *mut Tcb;
            stack_bounds(t);
            ME = t;
            wait_turn(t);
            for (j, st) in steps.iter().enumerate() {
                (*t).op = j;
                do_op(t, st, &mut (*G.sh).recs[b + j]);
            }
            (*t).status = FINISHED;
            leave(t, 3, 0);
            ME = null_mut();
            // Parked rather than exiting: thread exit would run beside the others.
            loop {
                futex_wait(&G.tcbs[i].wake, 2);
                libc::pause();
            }
        });
        if r.is_err() {
            libc::_exit(91);
        }
    }
    let first = if G.seeded { G.rng.below(n as u64) as usize } else { (sc.p("first") as usize).min(n - 1) };
    (*G.sh).first = first as u32;
    hand_to(first);
    while G.done.load(Ordering::SeqCst) == 0 {
        futex_wait(&G.done, 0);
    }
    (*G.sh).heap_live = G.live;
}
