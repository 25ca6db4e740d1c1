//! Memory of the library that outlives a call: its writable statics, found by name in this very
//! program. The scout looks for calls that change them and for calls that notice; where there are
//! none, as on a library without state, it has nothing to do.
#![allow(static_mut_refs)]
use crate::props;
use crate::rt::*;
use crate::run::*;
use crate::scn::*;
use gen::{mix, OwnedCall, Rng};

#[derive(Default, Clone)]
pub struct Statics {
    /// Address and length.
    pub fixed: Vec<(usize, usize)>,
    /// Offset from the thread pointer, and length.
    pub local: Vec<(usize, usize)>,
}

fn find_in(b: &[u8], data_start: usize) -> Option<Statics> {
    let u16at = |o: usize| Some(u16::from_le_bytes(b.get(o..o + 2)?.try_into().ok()?) as usize);
    let u32at = |o: usize| Some(u32::from_le_bytes(b.get(o..o + 4)?.try_into().ok()?) as usize);
    let u64at = |o: usize| Some(u64::from_le_bytes(b.get(o..o + 8)?.try_into().ok()?) as usize);
    let (phoff, shoff) = (u64at(32)?, u64at(40)?);
    let (phent, phnum, shent, shnum) = (u16at(54)?, u16at(56)?, u16at(58)?, u16at(60)?);
    let shstr = u64at(shoff + u16at(62)? * shent + 24)?;
    let name = |o: usize| -> Option<&str> { std::str::from_utf8(&b[o..o + b[o..].iter().position(|&c| c == 0)?]).ok() };
    let mut tls = None;
    for i in 0..phnum {
        let p = phoff + i * phent;
        if u32at(p)? == 7 {
            let (mem, align) = (u64at(p + 40)?, u64at(p + 48)?.max(1));
            tls = Some(mem.div_ceil(align) * align);
        }
    }
    let mut writable = vec![];
    let mut tab = None;
    for i in 0..shnum {
        let s = shoff + i * shent;
        let flags = u64at(s + 8)?;
        writable.push(flags & 1 != 0 && flags & 2 != 0 && name(shstr + u32at(s)?)? != ".data.rel.ro");
        if u32at(s + 4)? == 2 {
            tab = Some(s);
        }
    }
    let s = tab?;
    let (off, size, link) = (u64at(s + 24)?, u64at(s + 32)?, u32at(s + 40)?);
    let strs = u64at(shoff + link * shent + 24)?;
    let mut base = None;
    let mut r = Statics::default();
    for i in 0..size / 24 {
        let e = off + i * 24;
        let (info, sec, val, len) = (*b.get(e + 4)?, u16at(e + 6)?, u64at(e + 8)?, u64at(e + 16)?);
        let n = name(strs + u32at(e)?)?;
        if n == "__data_start" {
            base = Some(data_start.wrapping_sub(val));
        }
        if len == 0 || !n.contains("13rustc_apfloat") || !writable.get(sec).copied().unwrap_or(false) {
            continue;
        }
        match info & 15 {
            1 => r.fixed.push((val, len)),
            6 => r.local.push((tls?.wrapping_sub(val), len)),
            _ => {}
        }
    }
    let base = base?;
    for f in &mut r.fixed {
        f.0 = f.0.wrapping_add(base);
    }
    r.fixed.sort();
    r.local.sort();
    Some(r)
}

impl Statics {
    pub fn find() -> Option<Statics> {
        find_in(&std::fs::read("/proc/self/exe").ok()?, unsafe { G.glob_lo })
    }
    pub fn len(&self) -> usize {
        self.fixed.len() + self.local.len()
    }
    fn ranges(&self) -> Vec<(*mut u8, usize)> {
        let tp: usize;
        unsafe { core::arch::asm!("mov {}, fs:0", out(reg) tp, options(nostack, readonly)) };
        self.fixed.iter().map(|&(a, n)| (a as *mut u8, n)).chain(self.local.iter().map(|&(o, n)| ((tp - o) as *mut u8, n))).collect()
    }
}

const MAX_BYTES: usize = 1 << 16;
const STATES: usize = 12;
const PAIRS: usize = 16;
/// Forgeries of a call tried on the state it left.
const FORGED: usize = 600;
const CALLS: usize = 40_000;

#[repr(C)]
struct Part {
    /// Progress, so that a child that dies can be followed by another.
    at: usize,
    n_states: usize,
    n_touch: usize,
    n_pairs: usize,
    /// Index of the call that left the state.
    state_of: [u32; STATES],
    bytes: [[u8; MAX_BYTES]; STATES],
    /// Calls that use statics and leave them as they were.
    touch: [u32; STATES],
    /// The call that left a state, and one that notices; from `CALLS` on, a forgery of the first.
    pairs: [(u32, u32); 2 * PAIRS],
}

#[repr(C)]
struct Found {
    parts: [Part; PARTS],
    outcome: [u64; CALLS],
    steps: [u64; CALLS],
}

/// What the scout found: calls that touch the library's statics, and pairs of calls of which the
/// second gives another outcome for the first having been made.
#[derive(Default, Clone)]
pub struct Hot {
    pub statics: usize,
    pub steps: Vec<Step>,
    pub pairs: Vec<(Step, Step)>,
}

fn scout_step(seed: u64, prop: &str, i: usize) -> Step {
    // Calls come in families, so that a family's neighbours are tried on what it left.
    let mut r = Rng::new(seed, props::stream(prop) + 2000, i as u64 / 4);
    let mut c = props::any_call(&mut r);
    for _ in 0..i % 4 {
        c = gen::variant(&mut r, &c);
    }
    let mut s = Step::new(c);
    let mut r = Rng::new(seed, props::stream(prop) + 2001, i as u64);
    match r.below(16) {
        0 => s.faults.push(Fault { at: Point::Chunk(1 + r.below(3)), act: Act::Panic }),
        1 => s.faults.push(Fault { at: Point::Alloc(1 + r.below(3)), act: Act::RefuseAll }),
        2 => s.faults.push(Fault { at: Point::Chunk(1 + r.below(3)), act: Act::ErrForever }),
        _ => {}
    }
    s
}

fn forged_step(seed: u64, prop: &str, of: u32, k: usize) -> Step {
    let mut r = Rng::new(seed, props::stream(prop) + 2002, (of as u64) << 16 | k as u64);
    let mut c = scout_step(seed, prop, of as usize).call;
    for _ in 0..1 + r.below(4) / 3 {
        c = gen::forge(&mut r, &c);
    }
    Step::new(c)
}

fn heavy(c: &OwnedCall) -> bool {
    c.text.len() > 300 || c.spec.prec.unwrap_or(0) > 400 || c.spec.width.unwrap_or(0) > 400
}

fn outcome(r: &Rec) -> u64 {
    let o = &r.out;
    let mut h = r.state as u64;
    for x in [o.bits as u64, (o.bits >> 64) as u64, o.ival as u64, (o.ival as u128 >> 64) as u64, o.aux, o.status as u64 | (o.flag as u64) << 8 | (o.res as u64) << 16 | (o.has_val as u64) << 24, r.text_hash, r.text_len as u64] {
        h = mix(h ^ x).wrapping_add(0x9e3779b97f4a7c15);
    }
    h
}

/// Calls are shared out among this many processes.
const PARTS: usize = 8;
const SHARE: usize = CALLS / PARTS;

/// Runs `f` for every part at once, each in a process of its own that may start others.
fn in_parts(f: impl Fn(usize, &mut Runner)) {
    unsafe {
        let pids: Vec<i32> = (0..PARTS)
            .map(|k| {
                let pid = libc::fork();
                if pid == 0 {
                    libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                    f(k, &mut Runner::new());
                    libc::_exit(0);
                }
                pid
            })
            .collect();
        for p in pids {
            let mut st = 0;
            libc::waitpid(p, &mut st, 0);
        }
    }
}

pub fn scout(seed: u64, prop: &str) -> Hot {
    let Some(st) = Statics::find() else {
        eprintln!("the program has no symbol table");
        std::process::exit(3);
    };
    let mut hot = Hot { statics: st.len(), ..Hot::default() };
    let total: usize = st.fixed.iter().chain(&st.local).map(|r| r.1).sum();
    if st.len() == 0 || total > MAX_BYTES {
        return hot;
    }
    let log = std::env::var_os("SIM_LOG").is_some();
    let t0 = std::time::Instant::now();
    let copy = |rs: &[(*mut u8, usize)], to: *mut u8| {
        let mut o = 0;
        for &(a, n) in rs {
            unsafe { core::ptr::copy_nonoverlapping(a, to.add(o), n) };
            o += n;
        }
    };
    let put = |rs: &[(*mut u8, usize)], from: *const u8| {
        let mut o = 0;
        for &(a, n) in rs {
            unsafe { core::ptr::copy_nonoverlapping(from.add(o), a, n) };
            o += n;
        }
    };
    let sc = Scenario::default();
    let found = unsafe { map_shared(core::mem::size_of::<Found>()) as *mut Found };
    // Which calls leave something behind.
    in_parts(|k, run| unsafe {
        let p = &mut (*found).parts[k];
        for _ in 0..20 {
            if p.at >= SHARE {
                break;
            }
            run.batch(&sc, |t, rec| {
                let rs = st.ranges();
                let (mut clean, mut now) = (vec![0u8; total], vec![0u8; total]);
                copy(&rs, clean.as_mut_ptr());
                let mut sigs = std::collections::HashSet::new();
                while p.at < SHARE {
                    let i = k * SHARE + p.at;
                    p.at += 1;
                    let s = scout_step(seed, prop, i);
                    if heavy(&s.call) {
                        continue;
                    }
                    do_op(t, &s, rec);
                    (*found).steps[i] = rec.steps;
                    (*found).outcome[i] = if s.faults.is_empty() { outcome(rec) } else { 0 };
                    copy(&rs, now.as_mut_ptr());
                    if now == clean {
                        if rec.globs > 0 && p.n_touch < STATES && i % 4 == 0 {
                            p.touch[p.n_touch] = i as u32;
                            p.n_touch += 1;
                        }
                        continue;
                    }
                    put(&rs, clean.as_ptr());
                    // One of each kind of change, a few of each set of statics changed.
                    let (mut which, mut what, mut o) = (0u64, 0u64, 0);
                    for (k, &(_, n)) in rs.iter().enumerate() {
                        if now[o..o + n] != clean[o..o + n] {
                            which = mix(which ^ k as u64).wrapping_add(1);
                            for b in &now[o..o + n] {
                                what = what.wrapping_mul(0x100000001b3) ^ *b as u64;
                            }
                        }
                        o += n;
                    }
                    let sig = mix(which ^ (mix(what) & 7) << 32 ^ (!s.faults.is_empty() as u64) << 40 ^ (s.call.kind as u64) << 48);
                    if sigs.insert(sig) && p.n_states < STATES {
                        p.state_of[p.n_states] = i as u32;
                        p.bytes[p.n_states][..total].copy_from_slice(&now);
                        p.n_states += 1;
                    }
                }
            });
        }
    });
    let t1 = t0.elapsed();
    // Which calls notice.
    in_parts(|k, run| unsafe {
        let p = &mut (*found).parts[k];
        for n in 0..p.n_states {
            let (mut at, mut dead) = (0, 0);
            let cell = map_shared(64) as *mut usize;
            while at < CALLS && dead < 2 && p.n_pairs < PAIRS {
                let exit = run.batch(&sc, |t, rec| {
                    let rs = st.ranges();
                    let own = p.state_of[n] as usize / 4 * 4;
                    let mut seen = 0;
                    while at < CALLS && seen < 4 && p.n_pairs < PAIRS {
                        // Its own family first, then some of the others.
                        let i = if at < 4 { own + at } else { at };
                        at += if at < 4 { 1 } else { 1 + p.n_states };
                        *cell = at;
                        if (*found).outcome[i] == 0 || (*found).steps[i] > 200_000 {
                            continue;
                        }
                        let s = scout_step(seed, prop, i);
                        put(&rs, p.bytes[n].as_ptr());
                        let caps = [vec![20 * (*found).steps[i] + 20_000]];
                        G.caps = &caps as *const [Vec<u64>];
                        do_op(t, &s, rec);
                        if outcome(rec) != (*found).outcome[i] {
                            p.pairs[p.n_pairs] = (p.state_of[n], i as u32);
                            p.n_pairs += 1;
                            seen += 1;
                        }
                    }
                    *cell = CALLS;
                });
                at = *cell;
                dead += (exit != Exit::Ok) as u32;
            }
            libc::munmap(cell as *mut _, 64);
        }
    });
    let t2 = t0.elapsed();
    // Which calls are taken for the one made before.
    in_parts(|k, run| unsafe {
        let p = &mut (*found).parts[k];
        let cell = map_shared(64) as *mut usize;
        for n in 0..p.n_states {
            let first = p.n_pairs;
            *cell = 0;
            for _ in 0..4 {
                if *cell >= FORGED || p.n_pairs >= 2 * PAIRS || p.n_pairs > first + 1 {
                    break;
                }
                run.batch(&sc, |t, rec| {
                    let rs = st.ranges();
                    let mut clean = vec![0u8; total];
                    copy(&rs, clean.as_mut_ptr());
                    while *cell < FORGED && p.n_pairs < 2 * PAIRS && p.n_pairs < first + 2 {
                        let j = *cell;
                        *cell += 1;
                        let s = forged_step(seed, prop, p.state_of[n], j);
                        if heavy(&s.call) {
                            continue;
                        }
                        put(&rs, clean.as_ptr());
                        G.caps = &[] as *const [Vec<u64>];
                        do_op(t, &s, rec);
                        if rec.steps > 200_000 {
                            continue;
                        }
                        let right = outcome(rec);
                        put(&rs, p.bytes[n].as_ptr());
                        let caps = [vec![20 * rec.steps + 20_000]];
                        G.caps = &caps as *const [Vec<u64>];
                        do_op(t, &s, rec);
                        if outcome(rec) != right {
                            p.pairs[p.n_pairs] = (p.state_of[n], (CALLS + j) as u32);
                            p.n_pairs += 1;
                        }
                    }
                    G.caps = &[] as *const [Vec<u64>];
                });
            }
        }
    });
    let step = |i: u32| scout_step(seed, prop, i as usize);
    for p in unsafe { &(*found).parts } {
        for &(a, b) in &p.pairs[..p.n_pairs] {
            let (a, b) = (step(a), if b < CALLS as u32 { step(b) } else { forged_step(seed, prop, a, b as usize - CALLS) });
            hot.steps.extend([a.clone(), b.clone()]);
            hot.pairs.push((a, b));
        }
    }
    for p in unsafe { &(*found).parts } {
        hot.steps.extend(p.state_of[..p.n_states].iter().chain(&p.touch[..p.n_touch]).map(|&i| step(i)));
    }
    if log {
        eprintln!("scout: {} statics, {total} bytes, {} hot calls, {} pairs; {t1:?}, {:?} and {:?}", st.len(), hot.steps.len(), hot.pairs.len(), t2 - t1, t0.elapsed() - t2);
    }
    unsafe { libc::munmap(found as *mut _, core::mem::size_of::<Found>()) };
    hot
}
