//! Running scenarios in fresh processes, and the pristine-process oracle.
#![allow(static_mut_refs)]
use crate::dur;
use crate::rt::*;
use crate::scn::*;
use gen::OwnedCall;
use std::collections::HashMap;
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering::SeqCst};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Exit {
    Ok,
    Crashed,
    Hang,
    Stalled,
    Deadlock,
    Timeout,
    Signal(i32),
    Code(i32),
}

/// Everything one run left behind.
#[derive(Clone)]
pub struct Obs {
    pub exit: Exit,
    /// Outcomes per thread and step (immediate programs), or the log (durable programs).
    pub recs: Vec<Vec<Rec>>,
    pub nested: Vec<Rec>,
    pub sw: Vec<SwRec>,
    pub sw_lost: bool,
    pub first: u32,
    pub deadlock: bool,
    pub fired: [u64; 12],
    pub calls: u64,
    pub ticks: u64,
    pub heap_live: i64,
    pub mismatch: i64,
    pub restarts: u32,
    pub redelivered: u64,
    pub incarnations: u32,
}

pub struct Runner {
    pub sh: *mut Shared,
    memo: HashMap<OwnedCall, Rec>,
    /// End calls that hold far more memory than they may.
    pub cap_heap: bool,
    pub forks: u64,
    pub iso_runs: u64,
    pub iso_ticks: u64,
}

/// What a history child compares against, inherited through fork.
pub struct History<'a> {
    pub pool: &'a [Step],
    pub expect: &'a [Rec],
}

/// Exit code of a process in which everything waits.
const IDLE: i32 = 81;

/// Ends a process that has used no processor for a minute, six looks in a row.
unsafe fn idle_watch() {
    static LAST: AtomicU64 = AtomicU64::new(0);
    static IDLING: AtomicU32 = AtomicU32::new(0);
    extern "C" fn look(_: i32) {
        unsafe {
            let mut t: libc::timespec = core::mem::zeroed();
            libc::clock_gettime(libc::CLOCK_PROCESS_CPUTIME_ID, &mut t);
            let now = t.tv_sec as u64 * 1000 + t.tv_nsec as u64 / 1_000_000;
            if now.saturating_sub(LAST.swap(now, SeqCst)) > 5 {
                IDLING.store(0, SeqCst);
            } else if IDLING.fetch_add(1, SeqCst) == 5 {
                libc::_exit(IDLE);
            }
        }
    }
    let mut sa: libc::sigaction = core::mem::zeroed();
    sa.sa_sigaction = look as *const () as usize;
    sa.sa_flags = libc::SA_RESTART;
    libc::sigaction(libc::SIGALRM, &sa, core::ptr::null_mut());
    let every = libc::timeval { tv_sec: 10, tv_usec: 0 };
    let it = libc::itimerval { it_interval: every, it_value: every };
    libc::setitimer(libc::ITIMER_REAL, &it, core::ptr::null_mut());
}

impl Runner {
    pub fn new() -> Runner {
        unsafe {
            let sh = map_shared(core::mem::size_of::<Shared>()) as *mut Shared;
            G.sh = sh;
            Runner { sh, memo: HashMap::new(), cap_heap: false, forks: 0, iso_runs: 0, iso_ticks: 0 }
        }
    }

    /// Nothing a run does depends on time but whether it ends at all; a host that stood still,
    /// starved or ended a process must not look like that, so only what happens three times counts.
    fn patiently<T>(&mut self, exit: impl Fn(&T) -> Exit, mut f: impl FnMut(&mut Runner) -> T) -> T {
        for _ in 0..2 {
            let r = f(self);
            if !matches!(exit(&r), Exit::Timeout | Exit::Signal(libc::SIGKILL)) {
                return r;
            }
        }
        f(self)
    }

    unsafe fn fork(&mut self, f: impl FnOnce()) -> Exit {
        self.forks += 1;
        let pid = libc::fork();
        if pid < 0 {
            eprintln!("fork failed");
            std::process::exit(3);
        }
        if pid == 0 {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            idle_watch();
            let lim = libc::rlimit { rlim_cur: 60, rlim_max: 61 };
            libc::setrlimit(libc::RLIMIT_CPU, &lim);
            let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &core);
            f();
            libc::_exit(0);
        }
        let mut st = 0;
        loop {
            let r = libc::waitpid(pid, &mut st, 0);
            if r == pid {
                break;
            }
        }
        if libc::WIFSIGNALED(st) {
            return match libc::WTERMSIG(st) {
                libc::SIGXCPU => Exit::Timeout,
                s => Exit::Signal(s),
            };
        }
        match libc::WEXITSTATUS(st) {
            0 if (*self.sh).deadlock != 0 => Exit::Deadlock,
            0 => Exit::Ok,
            77 => Exit::Crashed,
            78 => Exit::Hang,
            79 => Exit::Stalled,
            80 => Exit::Deadlock,
            IDLE => Exit::Timeout,
            c => Exit::Code(c),
        }
    }

    fn collect(&self, exit: Exit, recs: Vec<Vec<Rec>>, n_nested: usize) -> Obs {
        unsafe {
            let sh = &*self.sh;
            Obs {
                exit,
                recs,
                nested: (0..n_nested).map(|i| sh.recs[NREC - 1 - i]).collect(),
                sw: sh.sw[..sh.nsw as usize].to_vec(),
                sw_lost: sh.sw_lost != 0,
                first: sh.first,
                deadlock: sh.deadlock != 0,
                fired: sh.fired,
                calls: sh.calls,
                ticks: sh.ticks,
                heap_live: sh.heap_live,
                mismatch: sh.mismatch,
                restarts: sh.disk.restarts,
                redelivered: sh.disk.redelivered,
                incarnations: 1,
            }
        }
    }

    /// A run in which every call has its own bound on steps.
    pub fn run_capped(&mut self, sc: &Scenario, caps: &[Vec<u64>]) -> Obs {
        unsafe {
            G.caps = caps as *const _;
            let o = self.run(sc);
            G.caps = &[];
            o
        }
    }

    /// One run of an immediate program (any number of threads).
    pub fn run(&mut self, sc: &Scenario) -> Obs {
        self.patiently(|o: &Obs| o.exit, |w| w.run_once(sc))
    }

    fn run_once(&mut self, sc: &Scenario) -> Obs {
        unsafe {
            (*self.sh).reset(sc.steps());
            let s: &'static Scenario = &*(sc as *const Scenario);
            let exit = self.fork(|| {
                configure(s);
                run_threads(s);
            });
            let mut recs = vec![];
            let mut k = 0;
            for t in &sc.threads {
                recs.push((*self.sh).recs[k..k + t.len()].to_vec());
                k += t.len();
            }
            self.collect(exit, recs, sc.nested.len().min(MAX_NESTED))
        }
    }

    /// The outcome of a call made alone, first, in a fresh process.
    pub fn iso(&mut self, c: &OwnedCall) -> Rec {
        if let Some(r) = self.memo.get(c) {
            return *r;
        }
        let r = self.iso_text(c, false).0;
        if self.memo.len() > 60_000 {
            self.memo.clear();
        }
        self.memo.insert(c.clone(), r);
        r
    }

    pub fn iso_text(&mut self, c: &OwnedCall, keep: bool) -> (Rec, Vec<u8>) {
        let mut sc = Scenario::default();
        sc.threads.push(vec![Step::new(c.clone())]);
        if keep {
            sc.set("keeptext", 1);
        }
        if self.cap_heap {
            sc.set("capheap", 1);
        }
        let o = self.run(&sc);
        self.iso_runs += 1;
        self.iso_ticks += o.ticks;
        let t = if keep { unsafe { (*self.sh).text[..(*self.sh).text_len as usize].to_vec() } } else { vec![] };
        let mut r = o.recs[0][0];
        if r.state == STARTED && o.exit == Exit::Hang {
            r.state = HANG;
        }
        (r, t)
    }

    /// Any number of calls, one after the other, in one process.
    pub fn batch(&mut self, sc: &Scenario, f: impl FnOnce(*mut Tcb, &mut Rec)) -> Exit {
        unsafe {
            (*self.sh).reset(1);
            let sh = self.sh;
            self.fork(|| {
                configure(sc);
                let t = adopt_main();
                f(t, &mut (*sh).recs[0]);
            })
        }
    }

    /// A long history drawn from a pool; compared in the child, call by call.
    /// Returns the index of the first call whose outcome differs and that outcome.
    pub fn history(&mut self, sc: &Scenario, h: &History) -> (Obs, Vec<u32>) {
        self.patiently(|o: &(Obs, Vec<u32>)| o.0.exit, |w| w.history_once(sc, h))
    }

    fn history_once(&mut self, sc: &Scenario, h: &History) -> (Obs, Vec<u32>) {
        unsafe {
            (*self.sh).reset(2);
            let len = sc.p("len") as usize;
            let order = history_order(sc, h.pool.len(), len);
            let sh = self.sh;
            let caps = [h.pool.iter().zip(h.expect).map(|(s, e)| if s.faults.is_empty() { 20 * e.steps + 5_000_000 } else { u64::MAX }).collect::<Vec<u64>>()];
            G.caps = &caps as *const [Vec<u64>];
            let exit = self.fork(|| {
                configure(sc);
                let t = adopt_main();
                for (n, &i) in order.iter().enumerate() {
                    let st = &h.pool[i as usize];
                    (*t).op = i as usize;
                    do_op(t, st, &mut (*sh).recs[0]);
                    let faulty = !st.faults.is_empty();
                    if !faulty && !(*sh).recs[0].same(&h.expect[i as usize]) {
                        (*sh).mismatch = n as i64;
                        (*sh).recs[1] = (*sh).recs[0];
                        break;
                    }
                    (*sh).nlog = n as u32 + 1;
                }
            });
            G.caps = &[];
            let r = vec![vec![(*self.sh).recs[0], (*self.sh).recs[1]]];
            let mut o = self.collect(exit, r, 0);
            if !matches!(exit, Exit::Ok) && o.mismatch < 0 {
                o.mismatch = (*self.sh).nlog as i64;
            }
            (o, order)
        }
    }

    /// A durable computation: incarnations until the program ends.
    pub fn durable(&mut self, sc: &Scenario) -> Obs {
        self.patiently(|o: &Obs| o.exit, |w| w.durable_once(sc))
    }

    fn durable_once(&mut self, sc: &Scenario) -> Obs {
        unsafe {
            (*self.sh).reset(NREC);
            (*self.sh).disk = core::mem::zeroed();
            let mut n = 0;
            let exit = loop {
                n += 1;
                let exit = self.fork(|| {
                    configure(sc);
                    dur::incarnation(sc);
                });
                if exit == Exit::Crashed && (*self.sh).crash == 1 && n < 400 {
                    (*self.sh).crash = 0;
                    dur::aftermath(sc, &mut *self.sh);
                    continue;
                }
                break exit;
            };
            // Calls a crash cut short say nothing; the call under way when a run ended badly does.
            let n_log = (*self.sh).nlog as usize;
            let mut log = vec![];
            for (i, r) in (&(*self.sh).recs)[..n_log].iter().enumerate() {
                if r.state != STARTED || (i + 1 == n_log && !matches!(exit, Exit::Ok | Exit::Crashed)) {
                    log.push(*r);
                }
            }
            let recs = vec![log];
            let mut o = self.collect(exit, recs, 0);
            o.incarnations = n;
            o
        }
    }

    /// The same program by a process that never crashes and never leaves its registers.
    pub fn twin(&mut self, sc: &Scenario) -> Obs {
        let mut t = sc.clone();
        for s in &mut t.threads[0] {
            s.faults.clear();
        }
        t.params.remove("shuffle");
        t.set("twin", 1);
        t.set("loadcheck", 0);
        self.durable(&t)
    }
}

pub fn history_order(sc: &Scenario, pool: usize, len: usize) -> Vec<u32> {
    let mut r = gen::Rng::new(sc.p("hseed") as u64, 9, 0);
    let burst = sc.p("burst").max(1) as u64;
    let mut v = Vec::with_capacity(len);
    if sc.p("explicit") != 0 {
        v.extend((0..pool.min(len)).map(|i| i as u32));
        return v;
    }
    let mut cur = 0u32;
    while v.len() < len {
        if burst == 1 || r.below(burst) == 0 {
            cur = r.below(pool as u64) as u32;
        }
        v.push(cur);
    }
    v
}
