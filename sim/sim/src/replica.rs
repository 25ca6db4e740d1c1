//! A replica of another build of the library, behind a pipe.
use crate::rt::*;
use crate::run::*;
use crate::scn::*;
use std::io::{Read, Write};
use std::time::{Duration, Instant};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

pub struct Replica {
    _child: Child,
    tx: ChildStdin,
    rx: ChildStdout,
}

#[repr(C)]
#[derive(Copy, Clone)]
struct Reply {
    exit_kind: u32,
    exit_arg: i32,
    restarts: u32,
    incarnations: u32,
    redelivered: u64,
    calls: u64,
    ticks: u64,
    fired: [u64; 12],
    n: u64,
}

fn enc(e: Exit) -> (u32, i32) {
    match e {
        Exit::Ok => (0, 0),
        Exit::Crashed => (1, 0),
        Exit::Hang => (2, 0),
        Exit::Stalled => (3, 0),
        Exit::Deadlock => (4, 0),
        Exit::Timeout => (5, 0),
        Exit::Signal(x) => (6, x),
        Exit::Code(x) => (7, x),
    }
}
fn dec(k: u32, x: i32) -> Exit {
    match k {
        0 => Exit::Ok,
        1 => Exit::Crashed,
        2 => Exit::Hang,
        3 => Exit::Stalled,
        4 => Exit::Deadlock,
        5 => Exit::Timeout,
        6 => Exit::Signal(x),
        _ => Exit::Code(x),
    }
}

unsafe fn bytes_of<T>(x: &T) -> &[u8] {
    std::slice::from_raw_parts(x as *const T as *const u8, std::mem::size_of::<T>())
}

impl Replica {
    /// Starts the build the environment variable names.
    pub fn start(var: &str) -> Replica {
        Replica::try_start(var).unwrap_or_else(|| {
            eprintln!("the replica of {var} cannot be started");
            std::process::exit(3);
        })
    }
    fn try_start(var: &str) -> Option<Replica> {
        let exe = std::env::var_os(var)?;
        let mut c = Command::new(exe);
        c.arg("serve").stdin(Stdio::piped()).stdout(Stdio::piped());
        let mut child = c.spawn().ok()?;
        let tx = child.stdin.take()?;
        let rx = child.stdout.take()?;
        Some(Replica { _child: child, tx, rx })
    }
    pub fn run(&mut self, sc: &Scenario) -> Obs {
        let t = sc.encode();
        let ask = (|| -> std::io::Result<(Reply, Vec<Rec>)> {
            self.tx.write_all(&(t.len() as u32).to_ne_bytes())?;
            self.tx.write_all(t.as_bytes())?;
            self.tx.flush()?;
            let mut b = vec![0u8; std::mem::size_of::<Reply>()];
            self.rx.read_exact(&mut b)?;
            let h: Reply = unsafe { std::ptr::read_unaligned(b.as_ptr() as *const Reply) };
            let mut b = vec![0u8; h.n as usize * std::mem::size_of::<Rec>()];
            self.rx.read_exact(&mut b)?;
            let recs = (0..h.n as usize).map(|i| unsafe { std::ptr::read_unaligned((b.as_ptr() as *const Rec).add(i)) }).collect();
            Ok((h, recs))
        })();
        match ask {
            Ok((h, recs)) => Obs {
                exit: dec(h.exit_kind, h.exit_arg),
                recs: vec![recs],
                nested: vec![],
                sw: vec![],
                sw_lost: false,
                first: 0,
                deadlock: false,
                fired: h.fired,
                calls: h.calls,
                ticks: h.ticks,
                heap_live: 0,
                mismatch: -1,
                restarts: h.restarts,
                redelivered: h.redelivered,
                incarnations: h.incarnations,
            },
            Err(e) => {
                eprintln!("lost the replica process: {e}");
                std::process::exit(3);
            }
        }
    }
}

/// A replica on a host of another kind (endianness, word size), played by an interpreter; it speaks
/// text. See portable/.
pub struct Foreign {
    child: Child,
    tx: ChildStdin,
    rx: ChildStdout,
    /// Read, not yet used.
    ahead: Vec<u8>,
    pub host: String,
}

/// What became of a replica that did not answer.
enum Lost {
    /// It ended by itself.
    Died,
    /// It was killed from outside: says nothing about the library.
    Killed,
    /// It was still at work when the time was up.
    Late,
}

impl Drop for Foreign {
    fn drop(&mut self) {
        unsafe { libc::kill(-(self.child.id() as i32), libc::SIGKILL) };
        let _ = self.child.wait();
    }
}

impl Foreign {
    fn spawn(args: &[&str]) -> Option<Foreign> {
        let mut c = Command::new("/bin/bash");
        let mut cmd = std::env::var_os("SIM_FOREIGN")?;
        cmd.push(" \"$@\"");
        c.arg("-c").arg(cmd).arg("host").args(args).stdin(Stdio::piped()).stdout(Stdio::piped());
        std::os::unix::process::CommandExt::process_group(&mut c, 0);
        let mut child = c.spawn().ok()?;
        let tx = child.stdin.take()?;
        let rx = child.stdout.take()?;
        Some(Foreign { child, tx, rx, ahead: vec![], host: String::new() })
    }
    fn start() -> Foreign {
        (|| {
            let mut f = Foreign::spawn(&[])?;
            let host = f.line(Instant::now() + Duration::from_secs(300)).ok()?;
            f.host = host.strip_prefix("host ")?.trim().to_string();
            Some(f)
        })()
        .unwrap_or_else(|| {
            eprintln!("the replica on another kind of host cannot be started");
            std::process::exit(3);
        })
    }
    fn recs(&mut self, secs: u64) -> Result<Vec<Rec>, Lost> {
        let end = Instant::now() + Duration::from_secs(secs);
        let mut recs = vec![];
        loop {
            let l = self.line(end)?;
            if l == "end" {
                return Ok(recs);
            }
            recs.push(Foreign::rec(&l).unwrap_or_else(|| {
                eprintln!("the replica on another kind of host wrote {l:?}");
                std::process::exit(3);
            }));
        }
    }
    fn gone(&mut self) -> Lost {
        use std::os::unix::process::ExitStatusExt;
        match self.child.wait() {
            Ok(s) if s.signal() == Some(libc::SIGKILL) || s.code() == Some(128 + libc::SIGKILL) => Lost::Killed,
            Ok(_) => Lost::Died,
            Err(_) => Lost::Killed,
        }
    }
    fn line(&mut self, end: Instant) -> Result<String, Lost> {
        let mut from = 0;
        loop {
            if let Some(n) = self.ahead[from..].iter().position(|&b| b == b'\n') {
                let rest = self.ahead.split_off(from + n + 1);
                let mut l = std::mem::replace(&mut self.ahead, rest);
                l.pop();
                return Ok(String::from_utf8_lossy(&l).into_owned());
            }
            from = self.ahead.len();
            let left = end.saturating_duration_since(Instant::now()).as_millis() as i32;
            let mut p = libc::pollfd { fd: std::os::fd::AsRawFd::as_raw_fd(&self.rx), events: libc::POLLIN, revents: 0 };
            match unsafe { libc::poll(&mut p, 1, left) } {
                0 => return Err(Lost::Late),
                1.. => {
                    let mut b = [0; 1 << 16];
                    match self.rx.read(&mut b) {
                        Ok(n) if n > 0 => self.ahead.extend_from_slice(&b[..n]),
                        _ => return Err(self.gone()),
                    }
                }
                _ => {}
            }
        }
    }
    fn ask(&mut self, sc: &Scenario, secs: u64) -> Result<Vec<Rec>, Lost> {
        let mut t = vec![];
        numbers(sc, &mut t);
        let mut m = format!("{:08x} ", t.len()).into_bytes();
        m.extend_from_slice(&t);
        if self.tx.write_all(&m).and_then(|_| self.tx.flush()).is_err() {
            return Err(self.gone());
        }
        self.recs(secs)
    }
    fn rec(l: &str) -> Option<Rec> {
        let t: Vec<&str> = l.split(' ').collect();
        let x = |i: usize| t.get(i).and_then(|s| if s.is_empty() { Some(0) } else { u128::from_str_radix(s, 16).ok() });
        let d = |i: usize| x(i).map(|v| v as u32);
        let mut r = Rec::EMPTY;
        let n = d(1)?;
        r.tag = if t[0] == "s" { crate::dur::tag(crate::dur::T_STEP, n, 0) } else { crate::dur::tag(crate::dur::T_FINAL, 0, n) };
        r.state = if d(2)? == 1 { DONE } else { PANICKED };
        r.out = shim::Out { bits: x(3)?, ival: x(4)?, aux: x(5)? as u64, status: d(6)? as u8, flag: d(7)? as u8, res: d(8)? as u8, has_val: d(9)? as u8 };
        r.text_hash = x(10)? as u64;
        r.text_len = d(11)?;
        Some(r)
    }
    /// What the replica did with a log that gave the others no trouble; or why, twice, there is no answer.
    pub fn run(at: &mut Option<Foreign>, sc: &Scenario) -> Result<Vec<Rec>, &'static str> {
        let mut why = Lost::Killed;
        for secs in [60, 150] {
            let f = at.get_or_insert_with(Foreign::start);
            match f.ask(sc, secs) {
                Ok(r) => return Ok(r),
                Err(l) => why = l,
            }
            *at = None;
        }
        match why {
            Lost::Died => Err("died"),
            Lost::Late => Err("never finished"),
            Lost::Killed => {
                eprintln!("the replica on another kind of host was killed");
                std::process::exit(3);
            }
        }
    }
}

/// The calls of a scenario made on threads under the interpreter's scheduler and weak memory, which
/// the seed decides; the calls' outcomes, thread by thread. None: no answer in time.
pub fn weak(sc: &Scenario, seed: u64, rate: &str) -> Option<Result<Vec<Rec>, &'static str>> {
    let mut t = vec![];
    put(&mut t, sc.threads.len() as u128);
    for th in &sc.threads {
        put_steps(&mut t, th);
    }
    let text = String::from_utf8(t).unwrap();
    let mut why = Lost::Killed;
    for secs in [60, 150] {
        let Some(mut f) = Foreign::spawn(&["threads", &seed.to_string(), rate, &text]) else { continue };
        match f.recs(secs) {
            Ok(r) => return Some(Ok(r)),
            Err(l) => why = l,
        }
    }
    match why {
        Lost::Died => Some(Err("died")),
        Lost::Late => None,
        Lost::Killed => {
            eprintln!("the interpreter was killed");
            std::process::exit(3);
        }
    }
}

fn put(t: &mut Vec<u8>, x: u128) {
    t.extend_from_slice(format!("{x:x} ").as_bytes());
}

/// A scenario as the portable replica reads it.
fn numbers(sc: &Scenario, t: &mut Vec<u8>) {
    put(t, sc.p("every").max(1) as u128);
    put(t, sc.regs.len() as u128);
    for &(f, b) in &sc.regs {
        put(t, f as u128);
        put(t, b);
    }
    put_steps(t, &sc.threads[0]);
    let order = delivery(sc);
    put(t, order.len() as u128);
    for x in order {
        put(t, x as u128);
    }
}
fn put_steps(t: &mut Vec<u8>, steps: &[Step]) {
    put(t, steps.len() as u128);
    for st in steps {
        let c = &st.call;
        let sp = &c.spec;
        let o = |x: Option<u16>| x.map_or(0, |v| v as u128 + 1);
        let crash = st.faults.iter().find(|f| matches!(f.act, Act::Crash(_))).map_or(0, |f| match f.at {
            Point::Start => 1,
            Point::Chunk(k) => k as u128 + 2,
            _ => 2,
        });
        let flags = sp.alt as u128 | (sp.plus as u128) << 1 | (c.prior as u128) << 2 | (c.alt as u128) << 3;
        let n = [c.kind as u128, c.f as u128, c.g as u128, c.round as u128, c.a, c.b, c.c, c.i as u128, c.w as u128, o(sp.width), o(sp.prec), flags, sp.fill as u128, st.dst as u128, st.src[0] as u128, st.src[1] as u128, st.src[2] as u128, crash, c.text.len() as u128];
        for x in n {
            put(t, x);
        }
        t.extend_from_slice(c.text.as_bytes());
    }
}

/// The server side: one scenario after the other, each in its own chain of processes.
pub fn serve() {
    unsafe {
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
        init();
    }
    let mut run = Runner::new();
    let (mut i, mut o) = (std::io::stdin(), std::io::stdout());
    loop {
        let mut b = [0u8; 4];
        if i.read_exact(&mut b).is_err() {
            return;
        }
        let mut t = vec![0u8; u32::from_ne_bytes(b) as usize];
        if i.read_exact(&mut t).is_err() {
            return;
        }
        let Some(sc) = std::str::from_utf8(&t).ok().and_then(Scenario::decode) else {
            eprintln!("replica: bad scenario");
            std::process::exit(3);
        };
        let obs = if matches!(&sc.prop[..], "C13" | "C14" | "C15" | "C06" | "C07" | "C08") { run.durable(&sc) } else { run.run(&sc) };
        let (k, x) = enc(obs.exit);
        let h = Reply { exit_kind: k, exit_arg: x, restarts: obs.restarts, incarnations: obs.incarnations, redelivered: obs.redelivered, calls: obs.calls, ticks: obs.ticks, fired: obs.fired, n: obs.recs[0].len() as u64 };
        let ok = unsafe { o.write_all(bytes_of(&h)) }.and_then(|_| {
            for r in &obs.recs[0] {
                o.write_all(unsafe { bytes_of(r) })?;
            }
            o.flush()
        });
        if ok.is_err() {
            return;
        }
    }
}
