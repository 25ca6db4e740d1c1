//! Durable computations: register programs on a simulated disk, executed by a chain of process
//! incarnations with only the disk surviving between them.
#![allow(static_mut_refs)]
use crate::rt::*;
use crate::scn::*;
use core::fmt::{self, Write};
use gen::mix;
use shim::{Kind, Out, Val};

pub const MAXREG: usize = 8;
pub const MAXSTEP: usize = 1024;
pub const ARCHIVE: usize = 64;
const CELLTEXT: usize = 160;

#[repr(C)]
#[derive(Copy, Clone)]
pub struct Cell {
    pub bits: u128,
    pub fmt: u8,
    pub is_text: u8,
    pub len: u16,
    pub text: [u8; CELLTEXT],
}

#[repr(C)]
#[derive(Copy, Clone)]
pub struct Slot {
    pub seq: u64,
    pub pc: u32,
    pub acc: u32,
    pub cells: [Cell; MAXREG],
    pub applied: [u64; MAXSTEP / 64],
}

#[repr(C)]
pub struct Disk {
    pub slots: [Slot; 3],
    /// Sequence number of the newest checkpoint that survives; 0: none.
    pub newest: u64,
    pub cur_step: u32,
    pub restarts: u32,
    pub crashed: [u64; MAXSTEP / 64],
    pub redelivered: u64,
    /// Values the first life stores and the last one reads back.
    pub archive: [Cell; ARCHIVE],
}

pub const T_STEP: u32 = 0;
pub const T_PROBE: u32 = 1;
pub const T_LOAD: u32 = 2;
pub const T_FINAL: u32 = 3;
pub const T_ARCHIVE: u32 = 4;
pub fn tag(kind: u32, pc: u32, reg: u32) -> u32 {
    kind << 28 | pc << 4 | reg
}
pub fn untag(t: u32) -> (u32, u32, u32) {
    (t >> 28, t >> 4 & 0xffffff, t & 15)
}

struct TextBuf {
    b: [u8; CELLTEXT],
    n: usize,
}
impl Write for TextBuf {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        for &c in s.as_bytes() {
            if self.n < CELLTEXT {
                self.b[self.n] = c;
            }
            self.n += 1;
        }
        Ok(())
    }
}

unsafe fn log(kind: u32, pc: u32, reg: u32) -> *mut Rec {
    let sh = &mut *G.sh;
    let i = (sh.nlog as usize).min(NREC - MAX_NESTED - 1);
    sh.nlog = i as u32 + 1;
    sh.recs[i] = Rec::EMPTY;
    sh.recs[i].tag = tag(kind, pc, reg);
    &mut sh.recs[i]
}

static mut SCRATCH: Rec = Rec::EMPTY;

/// A library call outside the program proper (checkpointing, probing): a panic is recorded.
unsafe fn aux<R>(t: *mut Tcb, kind: u32, pc: u32, reg: u32, keep: bool, f: impl FnOnce() -> (Out, R)) -> Option<R> {
    let rec = if keep {
        log(kind, pc, reg)
    } else {
        SCRATCH.tag = tag(kind, pc, reg);
        &mut SCRATCH
    };
    G.step_cap = u64::MAX;
    let r = guarded(t, &[], rec, |_| f());
    if r.is_none() && !keep {
        *log(kind, pc, reg) = SCRATCH;
    }
    r
}

fn observe(v: &Val) -> (u128, u64) {
    let b = v.to_bits();
    (b, shim::classify_val(v))
}

unsafe fn store(t: *mut Tcb, sc: &Scenario, v: &Val, pc: u32, reg: u32) -> Cell {
    let mut c = Cell { bits: 0, fmt: v.fmt_id(), is_text: 0, len: 0, text: [0; CELLTEXT] };
    let nan = aux(t, T_LOAD, pc, reg, false, || (Out::default(), observe(v))).unwrap_or((0, 2));
    c.bits = nan.0;
    if sc.p("text") != 0 && nan.1 & 2 == 0 {
        let mut b = TextBuf { b: [0; CELLTEXT], n: 0 };
        let ok = aux(t, T_LOAD, pc, reg, false, || (Out::default(), shim::print_val(v, &mut b).is_ok()));
        if ok == Some(true) && b.n <= CELLTEXT {
            c.is_text = 1;
            c.len = b.n as u16;
            c.text = b.b;
        }
    }
    c
}

/// Loads a cell. With `check`, also records what storing and loading again gives.
unsafe fn load(t: *mut Tcb, c: &Cell, pc: u32, reg: u32, check: bool) -> Val {
    let lossy;
    let text = if c.is_text == 1 {
        lossy = String::from_utf8_lossy(&c.text[..(c.len as usize).min(CELLTEXT)]).into_owned();
        Some(&lossy[..])
    } else {
        None
    };
    let r = aux(t, T_LOAD, pc, reg, check, || {
        let mut o = Out::default();
        let v = match text {
            None => shim::load(c.fmt, c.bits),
            Some(s) => match shim::parse_val(c.fmt, s) {
                Ok(v) => v,
                Err(_) => {
                    o.res = 2;
                    return (o, shim::zero(c.fmt));
                }
            },
        };
        if check {
            let (b, k) = observe(&v);
            o.bits = b;
            o.aux = k;
            o.res = 1;
            let w = shim::load(c.fmt, b);
            let (b2, k2) = observe(&w);
            o.ival = b2;
            o.flag = (k2 != k || !shim::identical(&v, &w)) as u8;
            if k & 2 == 0 {
                // Storing and loading as text changes nothing either.
                let mut tb = TextBuf { b: [0; CELLTEXT], n: 0 };
                let ok = shim::print_val(&v, &mut tb).is_ok() && tb.n <= CELLTEXT;
                let s = core::str::from_utf8(&tb.b[..tb.n.min(CELLTEXT)]).unwrap_or("");
                match shim::parse_val(c.fmt, s) {
                    Ok(x) if ok => {
                        let (b3, k3) = observe(&x);
                        if b3 != b || k3 != k {
                            o.status = 1;
                        }
                    }
                    _ => o.status = 2,
                }
            }
        }
        (o, v)
    });
    r.unwrap_or_else(|| shim::zero(c.fmt))
}

unsafe fn checkpoint(t: *mut Tcb, sc: &Scenario, regs: &[Val], pc: u32, acc: u32, applied: &[u64; MAXSTEP / 64]) {
    let d = &mut (*G.sh).disk;
    let seq = d.newest + 1;
    let s = &mut d.slots[(seq % 3) as usize] as *mut Slot;
    for (i, v) in regs.iter().enumerate() {
        (*s).cells[i] = store(t, sc, v, pc, i as u32);
    }
    (*s).pc = pc;
    (*s).acc = acc;
    (*s).applied = *applied;
    (*s).seq = seq;
    d.newest = seq;
}

fn archived(sc: &Scenario) -> &[Step] {
    match sc.threads.get(1) {
        Some(v) if sc.p("twin") == 0 => &v[..v.len().min(ARCHIVE)],
        _ => &[],
    }
}

unsafe fn archive_write(t: *mut Tcb, sc: &Scenario) {
    let d = &mut (*G.sh).disk as *mut Disk;
    for (i, st) in archived(sc).iter().enumerate() {
        let v = shim::load(st.call.f, st.call.a);
        (*d).archive[i] = store(t, sc, &v, i as u32, 0);
    }
}

/// Reads the archive back and compares each value with what was stored.
unsafe fn archive_read(t: *mut Tcb, sc: &Scenario) {
    let d = &mut (*G.sh).disk as *mut Disk;
    for (i, st) in archived(sc).iter().enumerate() {
        let c = (*d).archive[i];
        let s = String::from_utf8_lossy(&c.text[..(c.len as usize).min(CELLTEXT)]).into_owned();
        aux(t, T_ARCHIVE, i as u32, 0, true, || {
            let v = if c.is_text == 1 { shim::parse_val(c.fmt, &s) } else { Ok(shim::load(c.fmt, c.bits)) };
            let mut o = Out::default();
            match v {
                Ok(v) => {
                    let (b, k) = observe(&v);
                    let was = shim::load(c.fmt, st.call.a);
                    o.res = 1;
                    o.bits = b;
                    o.aux = k;
                    o.has_val = 1;
                    o.flag = (b != c.bits || !shim::identical(&v, &was)) as u8;
                }
                Err(_) => o.res = 2,
            }
            (o, ())
        });
    }
}

/// One life of the process: from the newest checkpoint to a crash or the end of the program.
pub unsafe fn incarnation(sc: &Scenario) {
    let t = adopt_main();
    let sh = G.sh;
    let order = delivery(sc);
    let steps = &sc.threads[0];
    let every = sc.p("every").max(1) as u32;
    let probes = sc.p("probes") != 0;
    let loadcheck = sc.p("loadcheck") != 0;
    let mut regs: Vec<Val> = Vec::new();
    let mut pc = 0u32;
    let mut acc = 0u32;
    let mut applied = [0u64; MAXSTEP / 64];
    let d = &mut (*sh).disk as *mut Disk;
    if (*d).newest == 0 {
        for (i, &(f, b)) in sc.regs.iter().enumerate() {
            let c = Cell { bits: b, fmt: f, is_text: 0, len: 0, text: [0; CELLTEXT] };
            regs.push(load(t, &c, 0, i as u32, loadcheck));
        }
        if (*d).restarts == 0 {
            archive_write(t, sc);
        }
    } else {
        let s = (*d).slots[((*d).newest % 3) as usize];
        pc = s.pc;
        acc = s.acc;
        applied = s.applied;
        for i in 0..sc.regs.len() {
            regs.push(load(t, &s.cells[i], pc, i as u32, loadcheck));
        }
    }
    let probe = |regs: &[Val], pc: u32| {
        if probes {
            for (i, v) in regs.iter().enumerate() {
                aux(t, T_PROBE, pc, i as u32, true, || {
                    let (b, k) = observe(v);
                    // Against what is stored of it, and against the other registers.
                    let same = shim::identical(v, &shim::load(v.fmt_id(), b));
                    let mut rel = 0u128;
                    for w in &regs[..i] {
                        if w.fmt_id() == v.fmt_id() {
                            rel = rel << 16 | shim::compare(v, w) as u128;
                        }
                    }
                    (Out { bits: b, aux: k, ival: rel, flag: same as u8, ..Out::default() }, ())
                });
            }
        }
    };
    if (*d).newest != 0 {
        probe(&regs, pc);
    }
    while (pc as usize) < order.len() {
        let i = order[pc as usize];
        if applied[i / 64] >> (i % 64) & 1 == 1 {
            (*d).redelivered += 1;
            pc += 1;
            continue;
        }
        let st = &steps[i];
        let c = st.call.call();
        let operand = |k: usize, bits: u128| -> Val {
            let s = st.src[k] as usize;
            if s < regs.len() && regs[s].fmt_id() == c.f {
                regs[s]
            } else {
                shim::load(c.f, bits)
            }
        };
        (*d).cur_step = i as u32;
        let rec = log(T_STEP, i as u32, 0);
        let faults: Vec<Fault> = if (*d).crashed[i / 64] >> (i % 64) & 1 == 1 { st.faults.iter().copied().filter(|f| !matches!(f.act, Act::Crash(_) | Act::Damage(_))).collect() } else { st.faults.iter().copied().filter(|f| !matches!(f.act, Act::Damage(_))).collect() };
        G.step_cap = 10 * crate::props::step_bound(&st.call);
        let v = guarded(t, &faults, rec, |w| {
            let (a, b, cc) = (operand(0, c.a), operand(1, c.b), operand(2, c.c));
            shim::exec_live(&c, &a, &b, &cc, w)
        });
        let dst = st.dst as usize;
        if let Some(v) = v {
            let o = &(*rec).out;
            acc |= o.status as u32;
            if dst < regs.len() {
                if o.has_val == 1 && v.fmt_id() == regs[dst].fmt_id() {
                    regs[dst] = v;
                } else if c.kind == Kind::FromStr && o.res == 2 {
                    regs[dst] = shim::zero(regs[dst].fmt_id());
                }
            }
        }
        applied[i / 64] |= 1 << (i % 64);
        pc += 1;
        if pc % every == 0 {
            if sc.p("twin") != 0 {
                probe(&regs, pc);
            } else {
                checkpoint(t, sc, &regs, pc, acc, &applied);
            }
        }
    }
    for (i, v) in regs.iter().enumerate() {
        aux(t, T_FINAL, 0, i as u32, true, || {
            let (b, k) = observe(v);
            (Out { bits: b, aux: k, status: acc as u8, ..Out::default() }, ())
        });
    }
    archive_read(t, sc);
    (*sh).heap_live = G.live;
}

/// Between two lives: what the crash did to the disk.
pub unsafe fn aftermath(sc: &Scenario, sh: &mut Shared) {
    let d = &mut sh.disk;
    let i = d.cur_step as usize;
    d.crashed[i / 64] |= 1 << (i % 64);
    d.restarts += 1;
    if sh.crash_arg & 1 == 1 && d.newest > 1 {
        d.newest -= 1; // not synced: gone
    }
    if d.newest == 0 {
        return;
    }
    let prev = d.slots[((d.newest + 2) % 3) as usize];
    let has_prev = d.newest > 1;
    let s = &mut d.slots[(d.newest % 3) as usize];
    for f in &sc.threads[0][i].faults {
        let Act::Damage(x) = f.act else { continue };
        let reg = (x & 255) as usize % sc.regs.len();
        let way = x >> 8 & 15;
        let z = x >> 12;
        sh.fired[11] += 1;
        let c = &mut s.cells[reg];
        let w = gen::width(c.fmt);
        let big = (mix(z) as u128) << 64 | mix(z ^ 0x55) as u128;
        if c.is_text == 0 {
            match way {
                0 | 1 => c.bits ^= 1u128 << (z % w as u64),
                2 => c.bits ^= big & (mix(z + 1) as u128 | (mix(z + 2) as u128) << 64),
                3 if has_prev => {
                    let m = u128::MAX >> (128 - w / 2);
                    c.bits = c.bits & !m | prev.cells[reg].bits & m;
                }
                4 | 5 if w < 128 => c.bits |= big << w,
                6 => c.bits = 0,
                7 => c.bits = u128::MAX,
                8 => {
                    // exponent-like and top-of-significand positions
                    let e = w - 1 - (z as u32 % 20).min(w - 1);
                    c.bits ^= 1u128 << e;
                }
                _ => c.bits = big,
            }
        } else {
            let n = (c.len as usize).min(CELLTEXT);
            if n == 0 {
                continue;
            }
            let k = z as usize % n;
            const JUNK: &[u8] = b".eE+-xXpP0123456789()iInNaAfFsS _,\x00\xff\xc3\xa9'\"";
            let j = JUNK[(z / 997) as usize % JUNK.len()];
            match way {
                0 | 1 => c.text[k] ^= 1 << (z / 131 % 8),
                2 => c.len = k as u16,
                3 if has_prev && prev.cells[reg].is_text == 1 => {
                    c.text[..k].copy_from_slice(&prev.cells[reg].text[..k]);
                }
                4 | 5 => c.text[k] = j,
                6 if n < CELLTEXT => {
                    c.text.copy_within(k..n, k + 1);
                    c.text[k] = j;
                    c.len = n as u16 + 1;
                }
                7 => {
                    for b in &mut c.text[k..n] {
                        *b = b'9';
                    }
                }
                8 => {
                    // duplicated tail
                    let m = (n - k).min(CELLTEXT - n);
                    c.text.copy_within(k..k + m, n);
                    c.len = (n + m) as u16;
                }
                9 | 10 => {
                    // the exponent blown up
                    let e = c.text[..n].iter().position(|&b| b == b'E' || b == b'e').unwrap_or(n);
                    let mut m = e;
                    let digits = 3 + z as usize / 7 % 12;
                    let sign = match z / 97 % 3 {
                        0 => "",
                        1 => "-",
                        _ => "+",
                    };
                    for b in [&b"e"[..], sign.as_bytes()].concat().into_iter().chain((0..digits).map(|q| b'0' + (mix(z + q as u64) % 10) as u8)) {
                        if m < CELLTEXT {
                            c.text[m] = b;
                            m += 1;
                        }
                    }
                    c.len = m as u16;
                }
                _ => {
                    for (q, b) in c.text[..n].iter_mut().enumerate() {
                        if mix(z ^ (q as u64) << 20) % 3 == 0 {
                            *b = JUNK[(mix(z + q as u64) % JUNK.len() as u64) as usize];
                        }
                    }
                }
            }
        }
    }
}
