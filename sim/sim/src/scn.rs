//! A scenario: everything one simulated run does, as data. Its text form is the replay file.
use gen::{OwnedCall, Rng};
use std::collections::BTreeMap;

/// Where, inside one operation, something happens.
#[derive(Copy, Clone, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Point {
    /// Before the operation starts.
    Start,
    /// When the operation has made this many steps (yield points passed).
    Step(u64),
    /// At the n-th access to process-global writable memory by the library in this operation.
    Glob(u64),
    /// When the sink receives its n-th chunk.
    Chunk(u64),
    /// When the sink would accept its n-th byte.
    Char(u64),
    /// At the n-th memory request.
    Alloc(u64),
    /// The n-th time the operation blocks on a lock.
    Block(u64),
    /// After the operation.
    End,
}

#[derive(Copy, Clone, PartialEq, Eq, Debug, Hash)]
pub enum Act {
    /// The sink returns an error, once.
    Err,
    /// The sink returns errors from here on.
    ErrForever,
    /// The sink accepts the part of the chunk before the point, then errors.
    Partial,
    /// The sink panics.
    Panic,
    /// The sink calls back into the library: nested call i.
    Nest(u64),
    /// This memory request is refused.
    Refuse,
    /// This and every later memory request of the operation is refused.
    RefuseAll,
    /// The host floating-point environment changes to configuration i.
    Env(u64),
    /// The thread stops for ever.
    Stall,
    /// The scheduler runs another thread.
    Switch(u64),
    /// The process dies. Argument 1: the newest checkpoint is lost as well; 2: and torn.
    Crash(u64),
    /// Stored state of register (arg & 255) is damaged at the next restart, in way arg >> 8.
    Damage(u64),
}

#[derive(Copy, Clone, PartialEq, Eq, Debug, Hash)]
pub struct Fault {
    pub at: Point,
    pub act: Act,
}

pub const IMM: u8 = 255;

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct Step {
    pub call: OwnedCall,
    /// Register programs: destination register, or IMM for none.
    pub dst: u8,
    /// Register programs: source registers, or IMM for the bits in the call.
    pub src: [u8; 3],
    pub faults: Vec<Fault>,
}

impl Step {
    pub fn new(call: OwnedCall) -> Step {
        Step { call, dst: IMM, src: [IMM; 3], faults: vec![] }
    }
}

#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct Scenario {
    pub prop: String,
    pub threads: Vec<Vec<Step>>,
    /// Calls made from inside a sink, with faults of their own: a nested call may nest.
    pub nested: Vec<Step>,
    /// Registers: format and initial bits.
    pub regs: Vec<(u8, u128)>,
    pub params: BTreeMap<String, i64>,
}

impl Scenario {
    pub fn p(&self, k: &str) -> i64 {
        self.params.get(k).copied().unwrap_or(0)
    }
    pub fn set(&mut self, k: &str, v: i64) {
        self.params.insert(k.to_string(), v);
    }
    pub fn steps(&self) -> usize {
        self.threads.iter().map(|t| t.len()).sum()
    }
    pub fn encode(&self) -> String {
        let mut s = format!("scenario {}\n", self.prop);
        for (k, v) in &self.params {
            s.push_str(&format!("param {k} {v}\n"));
        }
        for (i, (f, b)) in self.regs.iter().enumerate() {
            s.push_str(&format!("reg {i} {} {b:x}\n", shim::FMT_NAMES[*f as usize]));
        }
        for st in &self.nested {
            s.push_str("nested ");
            enc_step(st, &mut s);
        }
        for (i, t) in self.threads.iter().enumerate() {
            s.push_str(&format!("thread {i}\n"));
            for st in t {
                s.push_str("op ");
                enc_step(st, &mut s);
            }
        }
        s
    }
    pub fn decode(text: &str) -> Option<Scenario> {
        let mut sc = Scenario::default();
        for line in text.lines() {
            let line = line.trim_end();
            if line.is_empty() || line.starts_with('#') {
                continue;
            }
            let (k, rest) = line.split_once(' ')?;
            match k {
                "scenario" => sc.prop = rest.to_string(),
                "param" => {
                    let (a, b) = rest.split_once(' ')?;
                    sc.params.insert(a.to_string(), b.parse().ok()?);
                }
                "reg" => {
                    let p: Vec<&str> = rest.split(' ').collect();
                    let name = *p.get(1)?;
                    let f = shim::FMT_NAMES.iter().position(|x| *x == name)? as u8;
                    sc.regs.push((f, u128::from_str_radix(p.get(2)?, 16).ok()?));
                }
                "nested" => sc.nested.push(dec_step(rest)?),
                "thread" => sc.threads.push(vec![]),
                "op" => sc.threads.last_mut()?.push(dec_step(rest)?),
                _ => return None,
            }
        }
        Some(sc)
    }
}

fn enc_step(st: &Step, s: &mut String) {
    if st.dst != IMM || st.src != [IMM; 3] {
        let r = |x: u8| if x == IMM { "-".to_string() } else { x.to_string() };
        s.push_str(&format!("[{}={},{},{}] ", r(st.dst), r(st.src[0]), r(st.src[1]), r(st.src[2])));
    }
    s.push_str(&st.call.encode());
    if !st.faults.is_empty() {
        s.push_str(" ;;");
        for f in &st.faults {
            s.push(' ');
            s.push_str(&enc_fault(f));
        }
    }
    s.push('\n');
}

fn dec_step(rest: &str) -> Option<Step> {
    let mut rest = rest;
    let (mut dst, mut src) = (IMM, [IMM; 3]);
    if rest.starts_with('[') {
        let (h, t) = rest.split_once("] ")?;
        rest = t;
        let (d, s) = h[1..].split_once('=')?;
        let r = |x: &str| if x == "-" { Some(IMM) } else { x.parse().ok() };
        dst = r(d)?;
        let p: Vec<&str> = s.split(',').collect();
        src = [r(p.first()?)?, r(p.get(1)?)?, r(p.get(2)?)?];
    }
    let (c, f) = match rest.split_once(" ;;") {
        Some((c, f)) => (c, f),
        None => (rest, ""),
    };
    let mut st = Step::new(OwnedCall::decode(c)?);
    st.dst = dst;
    st.src = src;
    for t in f.split(' ').filter(|x| !x.is_empty()) {
        st.faults.push(dec_fault(t)?);
    }
    Some(st)
}

fn enc_fault(f: &Fault) -> String {
    let p = match f.at {
        Point::Start => "start".to_string(),
        Point::Step(k) => format!("step:{k}"),
        Point::Glob(k) => format!("glob:{k}"),
        Point::Chunk(k) => format!("chunk:{k}"),
        Point::Char(k) => format!("char:{k}"),
        Point::Alloc(k) => format!("alloc:{k}"),
        Point::Block(k) => format!("block:{k}"),
        Point::End => "end".to_string(),
    };
    let a = match f.act {
        Act::Err => "err".to_string(),
        Act::ErrForever => "errforever".to_string(),
        Act::Partial => "partial".to_string(),
        Act::Panic => "panic".to_string(),
        Act::Nest(i) => format!("nest:{i}"),
        Act::Refuse => "refuse".to_string(),
        Act::RefuseAll => "refuseall".to_string(),
        Act::Env(i) => format!("env:{i}"),
        Act::Stall => "stall".to_string(),
        Act::Switch(i) => format!("switch:{i}"),
        Act::Crash(i) => format!("crash:{i}"),
        Act::Damage(i) => format!("damage:{i}"),
    };
    format!("{p}={a}")
}

fn dec_fault(t: &str) -> Option<Fault> {
    let (p, a) = t.split_once('=')?;
    let num = |s: &str| -> Option<u64> { s.split_once(':')?.1.parse().ok() };
    let at = match p.split(':').next()? {
        "start" => Point::Start,
        "end" => Point::End,
        "step" => Point::Step(num(p)?),
        "glob" => Point::Glob(num(p)?),
        "chunk" => Point::Chunk(num(p)?),
        "char" => Point::Char(num(p)?),
        "alloc" => Point::Alloc(num(p)?),
        "block" => Point::Block(num(p)?),
        _ => return None,
    };
    let act = match a.split(':').next()? {
        "err" => Act::Err,
        "errforever" => Act::ErrForever,
        "partial" => Act::Partial,
        "panic" => Act::Panic,
        "nest" => Act::Nest(num(a)?),
        "refuse" => Act::Refuse,
        "refuseall" => Act::RefuseAll,
        "env" => Act::Env(num(a)?),
        "stall" => Act::Stall,
        "switch" => Act::Switch(num(a)?),
        "crash" => Act::Crash(num(a)?),
        "damage" => Act::Damage(num(a)?),
        _ => return None,
    };
    Some(Fault { at, act })
}

pub const ACT_NAMES: [&str; 12] = [
    "sink_error_once", "sink_error_forever", "sink_partial_write", "sink_panic", "sink_reentry", "alloc_refused",
    "alloc_refused_from_here", "fp_environment_switch", "thread_stalled_for_ever", "preemption", "crash", "storage_damage",
];

pub fn act_index(a: &Act) -> usize {
    match a {
        Act::Err => 0,
        Act::ErrForever => 1,
        Act::Partial => 2,
        Act::Panic => 3,
        Act::Nest(_) => 4,
        Act::Refuse => 5,
        Act::RefuseAll => 6,
        Act::Env(_) => 7,
        Act::Stall => 8,
        Act::Switch(_) => 9,
        Act::Crash(_) => 10,
        Act::Damage(_) => 11,
    }
}

/// Delivery order of the log: entries that do not conflict may be reordered, and some come twice.
pub fn delivery(sc: &Scenario) -> Vec<usize> {
    let steps = &sc.threads[0];
    let n = steps.len();
    if !sc.params.contains_key("shuffle") {
        return (0..n).collect();
    }
    let mut r = Rng::new(sc.p("shuffle") as u64, 5, 0);
    let uses = |i: usize, reg: u8| steps[i].src.contains(&reg);
    let conflict = |i: usize, j: usize| {
        let (di, dj) = (steps[i].dst, steps[j].dst);
        (di != IMM && (di == dj || uses(j, di))) || (dj != IMM && uses(i, dj))
    };
    let mut left: Vec<usize> = (0..n).collect();
    let mut out: Vec<usize> = vec![];
    while !left.is_empty() {
        // Entries within a window whose earlier conflicting entries are all delivered.
        let w = left.len().min(8);
        let cand: Vec<usize> = (0..w).filter(|&x| (0..x).all(|y| !conflict(left[y], left[x]))).collect();
        let x = *r.pick(&cand);
        out.push(left.remove(x));
        if r.chance(1, 8) {
            let d = out[r.below(out.len() as u64) as usize];
            out.push(d);
        }
    }
    out
}
