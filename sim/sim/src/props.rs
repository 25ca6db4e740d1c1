//! The properties: how a run is drawn from a seed, and how what it left behind is judged.
use crate::dur;
use crate::replica::{weak, Foreign, Replica};
use crate::rt::*;
use crate::run::*;
use crate::scn::*;
use crate::statics::{scout, Hot, Statics};
use gen::{Mix, OwnedCall, Rng};
use shim::{Kind, DD};

/// Sums and products of pairs, to nearest: units of 2^-104 of their operands they may be off by.
const PAIR_ERROR: u64 = 4;
/// One in so many scenarios of C03 is also executed by an interpreter with weak memory.
const WEAK_EVERY: u64 = 200;
const WEAK_RATES: [&str; 5] = ["0.005", "0.02", "0.1", "0.3", "0.6"];

pub const PROPS: [&str; 15] = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15"];

pub fn stream(prop: &str) -> u64 {
    prop[1..].parse::<u64>().unwrap_or(0)
}

#[derive(Clone, Debug)]
pub struct Violation {
    /// Stays the same while a failure is minimised.
    pub class: String,
    pub detail: String,
    /// Where: thread and step, when known.
    pub at: Option<(usize, usize)>,
}

fn viol(class: impl Into<String>, detail: impl Into<String>, at: Option<(usize, usize)>) -> Option<Violation> {
    Some(Violation { class: class.into(), detail: detail.into(), at })
}

pub struct Judged {
    pub violation: Option<Violation>,
    pub obs: Obs,
    /// Something the property is about actually happened (a fault fired, threads interleaved, ...).
    pub nontrivial: bool,
    pub note: u64,
}

pub struct World {
    pub run: Runner,
    /// The optimised build, and the one not optimised at all.
    pub release: Option<Replica>,
    pub plain: Option<Replica>,
    /// A replica on another kind of host.
    pub foreign: Option<Foreign>,
    /// Whether there is a build of the library for the other kind of host.
    pub has_foreign: bool,
    pub plain_runs: u64,
    pub foreign_runs: u64,
    pub foreign_calls: u64,
    pub pool: Option<(u64, Vec<OwnedCall>)>,
    /// Calls that touch memory of the library that outlives a call.
    pub hot: Hot,
}

impl World {
    pub fn new() -> World {
        World { run: Runner::new(), release: None, plain: None, foreign: None, has_foreign: std::env::var_os("SIM_FOREIGN").is_some_and(|x| !x.is_empty()), plain_runs: 0, foreign_runs: 0, foreign_calls: 0, pool: None, hot: Hot::default() }
    }
    /// Looks for calls that leave something behind, where a property depends on there being none.
    pub fn scout(&mut self, seed: u64, prop: &str) {
        if matches!(prop, "C02" | "C03" | "C04" | "C05" | "C10" | "C11") {
            self.hot = scout(seed, prop);
        } else {
            self.hot.statics = Statics::find().map_or(0, |s| s.len());
        }
    }
}

/// Generous bound on the steps of one call, as a function of its arguments.
pub fn step_bound(c: &OwnedCall) -> u64 {
    let (p, range): (u64, u64) = match c.f {
        0 => (11, 32),
        1 => (24, 256),
        2 => (53, 2048),
        3 => (113, 32768),
        4 => (8, 256),
        5 => (3, 32),
        6 => (4, 16),
        7 => (64, 32768),
        _ => (106, 2048),
    };
    let limbs = (p + 127) / 128 + 1;
    match c.kind {
        Kind::CFmod | Kind::IeeeRem | Kind::OpRem | Kind::RemAssign => 200_000 + 2_000 * range * limbs,
        Kind::FromStr => {
            // Quadratic in the text, about linear in the exponent range.
            let n = c.text.len() as u64;
            2_000_000 + 16 * n * n + 4_000 * n + 100 * range
        }
        Kind::Display | Kind::Debug | Kind::DebugStatus => {
            let n = range / 2 + p + c.spec.prec.unwrap_or(0) as u64 + c.spec.width.unwrap_or(0) as u64;
            4_000_000 + n * n / 2 + 4_000 * n
        }
        _ => 1_000_000,
    }
}

// ------------------------------------------------------------------------------ generation

fn pool<'a>(w: &'a mut World, seed: u64, prop: &str, epoch: u64, mix: Mix, dd: bool) -> &'a [OwnedCall] {
    if w.pool.as_ref().map(|p| p.0) != Some(epoch) {
        let mut r = Rng::new(seed, stream(prop) + 1000, epoch);
        let v = cluster_pool(&mut r, mix, dd, 48);
        w.pool = Some((epoch, v));
    }
    &w.pool.as_ref().unwrap().1
}

/// Calls in clusters of near-identical ones: what shared or remembered state confuses.
fn cluster_pool(r: &mut Rng, mix: Mix, dd: bool, n: usize) -> Vec<OwnedCall> {
    let mut v: Vec<OwnedCall> = vec![];
    let narrow = r.chance(1, 3);
    let kinds: Vec<Kind> = (0..1 + r.below(3)).map(|_| gen::pick_kind(r, mix)).collect();
    let fmts: Vec<u8> = (0..1 + r.below(3)).map(|_| gen::pick_fmt(r, dd)).collect();
    while v.len() < n {
        let base = if narrow {
            let (k, f) = (*r.pick(&kinds), *r.pick(&fmts));
            gen::normalise(gen::fill(r, k, f, false))
        } else {
            gen::call(r, mix, dd)
        };
        let m = 1 + r.below(6) as usize;
        let mut cur = base.clone();
        v.push(base);
        for _ in 0..m {
            let keep = r.chance(1, 2);
            cur = gen::variant(r, if keep { &cur } else { v.last().unwrap() });
            v.push(cur.clone());
        }
    }
    v.truncate(n);
    v
}

/// Any call, with those that work most over-represented.
pub fn any_call(r: &mut Rng) -> OwnedCall {
    match r.below(8) {
        0 => print_call(r, true),
        1 => decimal_call(r, true),
        2 => gen::normalise({
            let f = gen::pick_fmt(r, true);
            let mut c = gen::fill(r, Kind::FromStr, f, true);
            c.text = gen::bad_text(r, f);
            c
        }),
        _ => gen::call(r, Mix::All, true),
    }
}

/// Calls that touch the library's statics, if any do, and neighbours of theirs.
fn hot_calls(r: &mut Rng, w: &World, n: usize) -> Vec<OwnedCall> {
    let mut v: Vec<OwnedCall> = vec![];
    while v.len() < n {
        if !w.hot.pairs.is_empty() && r.chance(1, 3) {
            let (a, b) = r.pick(&w.hot.pairs);
            v.extend([a.call.clone(), b.call.clone()]);
            continue;
        }
        let mut c = r.pick(&w.hot.steps).call.clone();
        v.push(c.clone());
        for _ in 0..r.below(3) {
            c = gen::variant(r, &c);
            v.push(c.clone());
        }
    }
    v.truncate(n);
    v
}

/// Now and then, on a library with state: the calls to make are those that touch it.
fn is_hot(r: &mut Rng, w: &World) -> bool {
    !w.hot.steps.is_empty() && r.chance(1, 2)
}

fn log_uniform(r: &mut Rng, max: u64) -> u64 {
    let b = 64 - max.max(1).leading_zeros() as u64;
    let k = r.below(b) + 1;
    (1 + r.below(1 << k)).min(max.max(1))
}

/// A printable value whose text has some length.
fn print_call(r: &mut Rng, dd: bool) -> OwnedCall {
    let kind = *r.pick(&[Kind::Display, Kind::Display, Kind::Display, Kind::Display, Kind::Debug, Kind::DebugStatus]);
    let f = gen::pick_fmt(r, dd);
    gen::normalise(gen::fill(r, kind, f, true))
}

fn decimal_call(r: &mut Rng, dd: bool) -> OwnedCall {
    loop {
        let kind = gen::pick_kind(r, Mix::Decimal);
        let f = match r.below(4) {
            0 => 3,
            1 => 7,
            _ => gen::pick_fmt(r, dd),
        };
        let mut c = gen::fill(r, kind, f, true);
        if kind == Kind::FromStr && r.chance(1, 12) {
            let n = 500 + log_uniform(r, 3_000);
            c.text = gen::long_text(r, n);
        }
        return gen::normalise(c);
    }
}

pub fn generate(prop: &str, seed: u64, idx: u64, w: &mut World, thorough: bool) -> Scenario {
    let r = &mut Rng::new(seed, stream(prop), idx);
    let mut sc = Scenario { prop: prop.into(), ..Scenario::default() };
    let epoch = idx / 32;
    match prop {
        "C01" => {
            let c = print_call(r, true);
            let (iso, _) = w.run.iso_text(&c, false);
            let (n, m) = (iso.text_len as u64, iso.chunks as u64);
            let mut steps = vec![];
            let mut add = |at: Point, act: Act| {
                let mut s = Step::new(c.clone());
                s.faults.push(Fault { at, act });
                steps.push(s);
            };
            let acts = [Act::Err, Act::ErrForever, Act::Partial];
            // Every byte position when the text is short, a sample biased to both ends otherwise.
            let many = (40_000_000 / iso.steps.max(1)).clamp(4, 40);
            let pos: Vec<u64> = if n <= many { (0..n).collect() } else { (0..many).map(|i| if i < 6 { i } else if i < 12 { n - 1 - (i - 6) } else { r.below(n) }).collect() };
            for k in pos {
                add(Point::Char(k), *r.pick(&acts));
            }
            let many = many.min(24);
            let ch: Vec<u64> = if m <= many { (1..=m).collect() } else { (0..many).map(|i| if i < 4 { i + 1 } else if i < 8 { m - (i - 4) } else { 1 + r.below(m) }).collect() };
            for k in ch {
                add(Point::Chunk(k), if r.chance(1, 2) { Act::Err } else { Act::ErrForever });
            }
            // Healthy prints before, among and after the failing ones.
            let k = r.below(steps.len() as u64 + 1) as usize;
            steps.insert(k, Step::new(c.clone()));
            steps.push(Step::new(c.clone()));
            steps.push(Step::new(gen::variant(r, &c)));
            sc.threads.push(steps);
        }
        "C02" => {
            let dd = true;
            let n_nested = 1 + r.below(4);
            let mut bases = vec![];
            let hot = if is_hot(r, w) { hot_calls(r, w, 12) } else { vec![] };
            let n_out = 1 + r.below(3);
            let mut steps = vec![];
            for _ in 0..n_out {
                let mut c = if r.chance(2, 3) { print_call(r, dd) } else { decimal_call(r, dd) };
                if !hot.is_empty() {
                    c = r.pick(&hot).clone();
                }
                let iso = w.run.iso(&c);
                let mut s = Step::new(c.clone());
                let m = iso.chunks as u64;
                for _ in 0..1 + r.below(3) {
                    let at = if m > 0 && r.chance(1, 2) { Point::Chunk(1 + r.below(m)) } else { Point::Char(r.below(iso.text_len.max(1) as u64)) };
                    let f = match r.below(6) {
                        0..=2 if m > 0 => Fault { at, act: Act::Nest(r.below(n_nested)) },
                        3 | 4 if m > 0 => Fault { at, act: Act::Panic },
                        _ => {
                            let k = 1 + r.below(iso.allocs.max(1) as u64);
                            Fault { at: Point::Alloc(k), act: if r.chance(1, 2) { Act::Refuse } else { Act::RefuseAll } }
                        }
                    };
                    s.faults.push(f);
                }
                bases.push(c);
                // The same interruption again and again: what each leaves behind adds up.
                let again = match r.below(8) {
                    0..=4 => 1,
                    5 | 6 => 2 + r.below(6),
                    _ => 8 + log_uniform(r, 120),
                };
                let again = again.min(1 + 8_000_000 / (iso.steps + 400));
                for _ in 0..again {
                    steps.push(s.clone());
                }
                for _ in 0..r.below(3) {
                    steps.push(Step::new(after_call(r, &bases)));
                }
            }
            for _ in 0..n_nested {
                sc.nested.push(Step::new(match r.below(5) {
                    1.. if !hot.is_empty() => r.pick(&hot).clone(),
                    0 => bases[r.below(bases.len() as u64) as usize].clone(),
                    1 => {
                        let b = r.pick(&bases).clone();
                        gen::variant(r, &b)
                    }
                    2 => print_call(r, dd),
                    3 => decimal_call(r, dd),
                    _ => gen::call(r, Mix::All, dd),
                }));
            }
            for _ in 0..2 + r.below(4) {
                steps.push(Step::new(after_call(r, &bases)));
            }
            nest_deeper(r, w, &mut sc, &bases, dd);
            sc.set("pers", if r.chance(1, 2) { 0 } else { r.below(N_PERS) as i64 });
            sc.threads.push(steps);
        }
        "C03" if idx % if w.hot.steps.is_empty() { WEAK_EVERY } else { WEAK_EVERY / 4 } == 27 => {
            // Few and short calls, close to each other: an interpreter makes them.
            let p = if is_hot(r, w) { hot_calls(r, w, 12) } else { pool(w, seed, prop, epoch, Mix::All, true).to_vec() };
            let short: Vec<&OwnedCall> = p.iter().filter(|c| !c.text.contains('\0') && w.run.iso(c).steps < 6000).collect();
            let base = short.get(r.below(short.len().max(1) as u64) as usize).map_or_else(|| gen::call(r, Mix::Cheap, true), |c| (*c).clone());
            let mut calls = vec![base.clone()];
            for _ in 0..r.below(4) {
                let c = gen::variant(r, &base);
                if !c.text.contains('\0') && w.run.iso(&c).steps < 6000 {
                    calls.push(c);
                }
            }
            for _ in 0..*r.pick(&[2usize, 2, 3]) {
                sc.threads.push((0..1 + r.below(4)).map(|_| Step::new(r.pick(&calls).clone())).collect());
            }
            sc.set("weak", r.below(1 << 32) as i64);
            sc.set("rate", r.below(WEAK_RATES.len() as u64) as i64);
            sc.set("sched", (r.u64() >> 1) as i64);
            sc.set("gap", 80);
        }
        "C03" | "C04" => {
            let n = *r.pick(&[2usize, 2, 2, 3, 3, 4]);
            let style = r.below(4);
            let p = if is_hot(r, w) { hot_calls(r, w, 12) } else { pool(w, seed, prop, epoch, Mix::All, true).to_vec() };
            let start = r.below(p.len() as u64) as usize;
            for ti in 0..n {
                let k = 1 + r.below(if style == 3 { 6 } else { 3 });
                let mut v = vec![];
                for j in 0..k {
                    let c = match style {
                        // all over the pool
                        0 => r.pick(&p).clone(),
                        // neighbours in the pool: variants of each other
                        1 | 3 => p[(start + r.below(6) as usize) % p.len()].clone(),
                        // the very same kind and operands, maybe one argument apart
                        _ => {
                            let b = &p[(start + j as usize) % p.len()];
                            if r.chance(1, 2) {
                                b.clone()
                            } else {
                                gen::variant(r, b)
                            }
                        }
                    };
                    let mut s = Step::new(c);
                    if prop == "C04" && j == k - 1 && ti + 1 < n && r.chance(2, 3) {
                        let iso = w.run.iso(&s.call);
                        s.faults.push(Fault { at: Point::Glob(1 + r.below(6)), act: Act::Stall });
                        s.faults.push(match r.below(5) {
                            0 if iso.chunks > 0 => Fault { at: Point::Chunk(1 + r.below(iso.chunks as u64)), act: Act::Stall },
                            1 if iso.allocs > 0 => Fault { at: Point::Alloc(1 + r.below(iso.allocs as u64)), act: Act::Stall },
                            _ => Fault { at: Point::Step(log_uniform(r, iso.steps)), act: Act::Stall },
                        });
                    }
                    v.push(s);
                }
                sc.threads.push(v);
            }
            sc.set("sched", (r.u64() >> 1) as i64);
            sc.set("gap", *r.pick(&[5, 20, 80, 400, 2000, 8000]));
            sc.set("pstart", r.below(4) as i64);
        }
        "C05" => {
            let long = idx % if thorough { 16 } else { 24 } == 5;
            // Deep: one to three calls made so often that 16-bit counters wrap, mostly of the
            // kinds that do the most work.
            let deep = idx % 20 == 7;
            if deep {
                let base = match r.below(8) {
                    0..=2 => {
                        let f = gen::pick_fmt(r, true);
                        let mut c = gen::fill(r, Kind::FromStr, f, true);
                        for _ in 0..20 {
                            if c.text.len() > 24 && c.text.len() < 900 {
                                break;
                            }
                            c.text = gen::text(r, f);
                        }
                        gen::normalise(c)
                    }
                    3 => decimal_call(r, true),
                    4 => print_call(r, true),
                    _ => gen::call(r, Mix::All, true),
                };
                let base = if is_hot(r, w) { hot_calls(r, w, 1).remove(0) } else { base };
                let mut calls = vec![base.clone()];
                for _ in 0..r.below(3) {
                    calls.push(gen::variant(r, &base));
                }
                let steps: Vec<Step> = calls.into_iter().map(Step::new).collect();
                let cost: u64 = steps.iter().map(|s| w.run.iso(&clear_prior(&s.call)).steps + 150).sum::<u64>() / steps.len() as u64;
                let n = 66_000 * steps.len() as u64 + r.below(80_000);
                sc.set("hseed", (r.u64() >> 1) as i64);
                sc.set("burst", 1);
                let budget = if thorough { 8_000_000_000 } else { 1_500_000_000 };
                sc.set("len", (budget / cost).clamp(steps.len() as u64, n) as i64);
                sc.threads.push(steps);
                return sc;
            }
            if idx % 4 == 2 && !w.hot.pairs.is_empty() {
                // A pair found to depend on each other, as a history of two calls.
                let (a, b) = r.pick(&w.hot.pairs).clone();
                sc.set("explicit", 1);
                sc.set("len", 2);
                sc.threads.push(vec![a, b]);
                return sc;
            }
            let mix = if long { if r.chance(1, 2) { Mix::Cheap } else { Mix::All } } else { Mix::All };
            let n = if long { 1 + r.below(12) as usize } else { 6 + r.below(60) as usize };
            let calls = if is_hot(r, w) { hot_calls(r, w, n) } else { cluster_pool(r, mix, true, n) };
            let mut steps: Vec<Step> = calls.into_iter().map(Step::new).collect();
            // Calls that fail or are cut short leave their mark, if they can.
            for _ in 0..if long { 0 } else { 1 + r.below(6) } {
                let c = match r.below(4) {
                    0 => gen::normalise({
                        let f = gen::pick_fmt(r, true);
                        let mut c = gen::fill(r, Kind::FromStr, f, true);
                        c.text = gen::bad_text(r, f);
                        c
                    }),
                    1 => print_call(r, true),
                    _ => decimal_call(r, true),
                };
                let mut s = Step::new(c);
                match r.below(4) {
                    0 => s.faults.push(Fault { at: Point::Chunk(1 + r.below(4)), act: Act::Panic }),
                    1 => s.faults.push(Fault { at: Point::Alloc(1 + r.below(3)), act: Act::RefuseAll }),
                    2 => s.faults.push(Fault { at: Point::Chunk(1 + r.below(4)), act: Act::ErrForever }),
                    _ => {}
                }
                let k = r.below(steps.len() as u64 + 1) as usize;
                steps.insert(k, s);
            }
            sc.set("hseed", (r.u64() >> 1) as i64);
            sc.set("burst", *r.pick(&[1, 1, 2, 5, 40]));
            let cost: u64 = steps.iter().map(|s| w.run.iso(&clear_prior(&s.call)).steps + 150).sum::<u64>() / steps.len() as u64;
            let budget: u64 = if long { if thorough { 3_000_000_000 } else { 500_000_000 } } else { 6_000_000 };
            let cap = if long { 1_200_000 } else { 4_000 };
            sc.set("len", (budget / cost).clamp(steps.len() as u64, cap) as i64);
            sc.threads.push(steps);
        }
        "C06" => {
            let cfg = Cfg { dd: true, print: true, model: false, damage: false, text: false };
            program(r, &mut sc, &cfg);
            crashes(r, &mut sc, false);
            sc.set("probes", 1);
        }
        "C07" => {
            let cfg = Cfg { dd: false, print: true, model: false, damage: false, text: true };
            program(r, &mut sc, &cfg);
            crashes(r, &mut sc, false);
            sc.set("probes", 1);
            sc.set("text", 1);
            let n = 4 + r.below(dur::ARCHIVE as u64 - 3);
            let one = if r.chance(1, 2) { Some(gen::pick_fmt(r, false)) } else { None };
            let mut v = vec![];
            for _ in 0..n {
                let f = one.unwrap_or_else(|| gen::pick_fmt(r, false));
                let mut c = gen::fill(r, Kind::Bits, f, false);
                c.a = match r.below(4) {
                    0 => gen::power_of_ten(r, f),
                    1 => gen::above_power_of_ten(r, f),
                    _ => gen::value(r, f),
                };
                v.push(Step::new(gen::normalise(c)));
            }
            sc.threads.push(v);
        }
        "C08" => {
            let cfg = Cfg { dd: false, print: true, model: false, damage: true, text: false };
            program(r, &mut sc, &cfg);
            crashes(r, &mut sc, true);
            sc.set("loadcheck", 1);
            sc.set("text", r.below(2) as i64);
        }
        "C09" => {
            let mut v = vec![];
            for _ in 0..24 {
                let c = if r.chance(2, 3) {
                    gen::call(r, Mix::NoHeap, true)
                } else {
                    let f = gen::pick_fmt(r, true);
                    let mut c = gen::fill(r, Kind::FromStr, f, true);
                    match r.below(6) {
                        0 | 1 => c.text = gen::hex_text(r, if f == DD { 2 } else { f }),
                        2 => c.text = gen::special_text(r),
                        3 => {
                            // hexadecimal, maybe damaged: still no decimal number
                            let t = gen::hex_text(r, if f == DD { 2 } else { f });
                            c.text = gen::mutate_hex(r, &t);
                        }
                        4 => {
                            c = gen::fill(r, Kind::Display, f, true);
                            c.a = gen::non_finite_or_zero(r, f);
                        }
                        _ => c.text = gen::long_hex(r),
                    }
                    gen::normalise(c)
                };
                let mut s = Step::new(c);
                s.faults.push(Fault { at: Point::Start, act: Act::RefuseAll });
                v.push(s);
            }
            sc.threads.push(v);
        }
        "C10" => {
            let mut v = vec![];
            for _ in 0..3 {
                let mut c = decimal_call(r, true);
                if is_hot(r, w) {
                    c = hot_calls(r, w, 1).remove(0);
                }
                let mut iso = w.run.iso(&c);
                for _ in 0..6 {
                    if iso.allocs > 0 {
                        break;
                    }
                    c = decimal_call(r, true);
                    iso = w.run.iso(&c);
                }
                let a = iso.allocs as u64;
                let many = (20_000_000 / iso.steps.max(1)).clamp(2, 10);
                let ks: Vec<u64> = if a <= many { (1..=a).collect() } else { (0..many).map(|i| if i < 3 { i + 1 } else if i < 5 { a - (i - 3).min(a - 1) } else { 1 + r.below(a) }).collect() };
                for k in ks {
                    let mut s = Step::new(c.clone());
                    s.faults.push(Fault { at: Point::Alloc(k), act: if r.chance(1, 2) { Act::Refuse } else { Act::RefuseAll } });
                    v.push(s);
                    if r.chance(1, 3) {
                        v.push(Step::new(c.clone()));
                    }
                }
                let mut s = Step::new(c.clone());
                for k in 1..=a.min(64) {
                    if r.chance(1, 3) {
                        s.faults.push(Fault { at: Point::Alloc(k), act: Act::Refuse });
                    }
                }
                v.push(s);
                v.push(Step::new(c.clone()));
                v.push(Step::new(gen::variant(r, &c)));
            }
            sc.set("pers", r.below(N_PERS) as i64);
            sc.threads.push(v);
        }
        "C11" => {
            let mut v = vec![];
            for _ in 0..6 {
                let mut c = decimal_call(r, true);
                if r.chance(1, 3) {
                    let f = gen::pick_fmt(r, true);
                    c = gen::fill(r, Kind::FromStr, f, true);
                    c.text = gen::extreme_text(r);
                    c = gen::normalise(c);
                } else if r.chance(1, 5) {
                    c = gen::call(r, Mix::All, true);
                }
                if is_hot(r, w) {
                    c = hot_calls(r, w, 1).remove(0);
                }
                if c.kind == Kind::FromStr && r.chance(1, 2) {
                    // another text of the same length, in the same place
                    let mut d = c.clone();
                    d.text = gen::same_length(r, &d.text);
                    v.push(Step::new(d));
                }
                v.push(Step::new(c));
            }
            let c = v[0].clone();
            v.push(c);
            sc.set("pers", r.below(N_PERS) as i64);
            sc.set("capheap", 1);
            sc.threads.push(v);
        }
        "C12" => {
            let mut v = vec![];
            for _ in 0..16 {
                let c = gen::call(r, Mix::All, true);
                let iso = w.run.iso(&c);
                let mut s = Step::new(c);
                let style = r.below(4);
                let env = |r: &mut Rng| -> u64 {
                    match r.below(4) {
                        0 => r.below(16),
                        1 => r.below(16) | ENV_DEFAULT,
                        2 => r.below(16) | ENV_DEFAULT | 1 << 4 | 1 << 9,
                        _ => r.below(1024),
                    }
                };
                if style != 1 {
                    let e = env(r);
                    s.faults.push(Fault { at: Point::Start, act: Act::Env(e) });
                }
                if style != 0 {
                    for _ in 0..1 + r.below(4) {
                        let e = env(r);
                        let at = if iso.chunks > 0 && r.chance(1, 4) { Point::Chunk(1 + r.below(iso.chunks as u64)) } else if iso.allocs > 0 && r.chance(1, 6) { Point::Alloc(1 + r.below(iso.allocs as u64)) } else { Point::Step(1 + r.below(iso.steps.max(1))) };
                        s.faults.push(Fault { at, act: Act::Env(e) });
                    }
                }
                v.push(s);
            }
            sc.threads.push(v);
            if r.chance(1, 4) {
                sc.set("plain", 1);
            }
        }
        "C13" => {
            let cfg = Cfg { dd: true, print: true, model: false, damage: false, text: true };
            program(r, &mut sc, &cfg);
            crashes(r, &mut sc, false);
            sc.set("shuffle", (r.u64() >> 1) as i64);
            if r.chance(1, 64) {
                sc.set("foreign", 1);
            }
            if r.chance(1, 4) {
                sc.set("plain", 1);
            }
        }
        "C14" => {
            let cfg = Cfg { dd: false, print: false, model: true, damage: false, text: true };
            program(r, &mut sc, &cfg);
            crashes(r, &mut sc, false);
            if r.chance(1, 3) {
                sc.set("text", 1);
            }
        }
        "C15" => {
            pair_program(r, &mut sc);
            crashes(r, &mut sc, false);
        }
        _ => panic!("no such property"),
    }
    sc
}

fn clear_prior(c: &OwnedCall) -> OwnedCall {
    OwnedCall { prior: false, ..c.clone() }
}

/// A call likely to trip over what an interrupted one left behind.
fn after_call(r: &mut Rng, bases: &[OwnedCall]) -> OwnedCall {
    match r.below(5) {
        0 => r.pick(bases).clone(),
        1 => {
            let b = r.pick(bases).clone();
            gen::variant(r, &b)
        }
        2 => print_call(r, true),
        3 => decimal_call(r, true),
        _ => gen::call(r, Mix::All, true),
    }
}

struct Cfg {
    dd: bool,
    print: bool,
    /// Only steps the reference machine evaluates.
    model: bool,
    damage: bool,
    text: bool,
}

/// A random register program.
fn program(r: &mut Rng, sc: &mut Scenario, cfg: &Cfg) {
    let nreg = 2 + r.below(5) as usize;
    let one = r.chance(1, 3);
    let f0 = gen::pick_fmt(r, cfg.dd);
    for _ in 0..nreg {
        let f = if one || r.chance(1, 2) { f0 } else { gen::pick_fmt(r, cfg.dd) };
        let b = if cfg.text && f != DD && r.chance(1, 3) { if r.chance(1, 2) { gen::power_of_ten(r, f) } else { gen::above_power_of_ten(r, f) } } else { gen::value(r, f) };
        sc.regs.push((f, b));
    }
    let n = *r.pick(&[6u64, 12, 24, 40, 80, 160]);
    let n = 3 + r.below(n);
    let preg = *r.pick(&[1u64, 4, 7, 10]);
    // Swarm: some programs use few kinds only.
    let few: Option<Vec<Kind>> = if r.chance(1, 3) { Some((0..1 + r.below(4)).map(|_| gen::pick_kind(r, Mix::All)).collect()) } else { None };
    let mut steps = vec![];
    while (steps.len() as u64) < n {
        let kind = match &few {
            Some(v) if r.chance(9, 10) => *r.pick(v),
            _ => gen::pick_kind(r, Mix::All),
        };
        let printing = matches!(kind, Kind::Display | Kind::Debug | Kind::DebugStatus);
        if matches!(kind, Kind::Debug | Kind::DebugStatus) || (printing && !cfg.print) {
            continue;
        }
        let s = r.below(nreg as u64) as usize;
        let f = sc.regs[s].0;
        let mut c = gen::fill(r, kind, f, true);
        if kind == Kind::FromStr && (cfg.damage || r.chance(1, 6)) && r.chance(1, 2) {
            c.text = gen::bad_text(r, f);
        }
        let mut dst = IMM;
        if kind == Kind::Convert {
            let cand: Vec<usize> = (0..nreg).filter(|&i| if f == DD { sc.regs[i].0 == DD } else { sc.regs[i].0 != DD }).collect();
            if !cand.is_empty() && r.chance(3, 4) {
                let d = *r.pick(&cand);
                c.g = sc.regs[d].0;
                dst = d as u8;
            }
        } else if r.chance(3, 4) {
            let cand: Vec<usize> = (0..nreg).filter(|&i| sc.regs[i].0 == f).collect();
            dst = *r.pick(&cand) as u8;
        }
        let c = gen::normalise(c);
        if cfg.model && model::eval(&c.call()).is_none() {
            continue;
        }
        let mut st = Step::new(c);
        st.dst = dst;
        let arity = match kind {
            Kind::MulAdd | Kind::OpMulAdd => 3,
            Kind::FromI | Kind::FromU | Kind::Qnan | Kind::Snan | Kind::Consts | Kind::FromStr => 0,
            Kind::RoundInt | Kind::NextUp | Kind::NextDown | Kind::Neg | Kind::Abs | Kind::Classify | Kind::IsInteger | Kind::Bits | Kind::Ilogb | Kind::ExactInv | Kind::Frexp | Kind::Scalbn | Kind::ToI | Kind::ToU | Kind::Convert | Kind::Display => 1,
            _ => 2,
        };
        for k in 0..arity {
            if r.below(10) < preg {
                let cand: Vec<usize> = (0..nreg).filter(|&i| sc.regs[i].0 == f).collect();
                st.src[k] = *r.pick(&cand) as u8;
            }
        }
        steps.push(st);
    }
    sc.threads.push(steps);
    sc.set("every", *r.pick(&[1, 1, 2, 3, 7]));
}

/// A program over pairs of doubles; every step has a defined outcome.
fn pair_program(r: &mut Rng, sc: &mut Scenario) {
    let nreg = 2 + r.below(5) as usize;
    for _ in 0..nreg {
        sc.regs.push((DD, gen::value(r, DD)));
    }
    let mut regs: Vec<u128> = sc.regs.iter().map(|x| x.1).collect();
    let n = *r.pick(&[6u64, 12, 24, 40, 80, 160]);
    let n = 3 + r.below(n);
    let preg = *r.pick(&[1u64, 4, 7, 10]);
    let few: Option<Vec<Kind>> = if r.chance(1, 3) { Some((0..1 + r.below(4)).map(|_| gen::pick_kind(r, Mix::All)).collect()) } else { None };
    // Steps without a definition: the rest must not notice them.
    let open = r.chance(1, 5);
    let mut steps = vec![];
    let mut tries = 0;
    while (steps.len() as u64) < n && tries < 20 * n {
        tries += 1;
        let kind = match &few {
            Some(v) if tries < 4 * n && r.chance(9, 10) => *r.pick(v),
            _ => gen::pick_kind(r, Mix::All),
        };
        let mut c = gen::pair_fill(r, kind);
        if kind == Kind::FromStr && r.chance(1, 12) {
            c.text = gen::bad_text(r, DD);
        }
        let c = gen::normalise(c);
        let mut st = Step::new(c.clone());
        let mut now = c;
        for k in 0..3 {
            if r.below(10) < preg {
                let s = r.below(nreg as u64) as usize;
                st.src[k] = s as u8;
                *[&mut now.a, &mut now.b, &mut now.c][k] = regs[s];
            }
        }
        let Some(o) = model::eval_any(&now.call()) else {
            if open {
                steps.push(Step::new(now));
            }
            continue;
        };
        // What is neither zero nor finite spreads; do not let it fill all registers.
        let finite = model::dd::decode(o.bits).hi.c == model::C::Fin;
        if r.chance(if finite { 3 } else { 1 }, 4) {
            let d = r.below(nreg as u64) as usize;
            st.dst = d as u8;
            if o.has_val == 1 {
                regs[d] = o.bits;
            } else if kind == Kind::FromStr && o.res == 2 {
                regs[d] = 0;
            }
        }
        steps.push(st);
    }
    sc.threads.push(steps);
    sc.set("every", *r.pick(&[1, 1, 2, 3, 7]));
}

/// Crashes, lost checkpoints and damage, placed inside operations.
fn crashes(r: &mut Rng, sc: &mut Scenario, damage: bool) {
    let rate = *r.pick(&[30u64, 100, 300, 800]);
    let nreg = sc.regs.len() as u64;
    let mut left = 10;
    for st in &mut sc.threads[0] {
        if left == 0 || r.below(1000) >= rate {
            continue;
        }
        left -= 1;
        let lost = r.chance(1, 4) as u64;
        let at = match r.below(6) {
            0 => Point::Start,
            1 => Point::End,
            2 if st.call.is_print() => Point::Chunk(1 + r.below(8)),
            _ => {
                let m = if r.chance(1, 2) { 40 } else { 2000 };
                Point::Step(log_uniform(r, m))
            }
        };
        st.faults.push(Fault { at, act: Act::Crash(lost) });
        if damage {
            for _ in 0..1 + r.below(3) {
                let x = r.below(nreg) | r.below(10) << 8 | r.below(1 << 24) << 12;
                st.faults.push(Fault { at: Point::End, act: Act::Damage(x) });
            }
        }
    }
    if left == 10 {
        // Never a run without a crash.
        let n = sc.threads[0].len() as u64;
        let st = &mut sc.threads[0][r.below(n) as usize];
        st.faults.push(Fault { at: Point::Start, act: Act::Crash(0) });
        if damage {
            let x = r.below(nreg) | r.below(10) << 8 | r.below(1 << 24) << 12;
            st.faults.push(Fault { at: Point::End, act: Act::Damage(x) });
        }
    }
}

// --------------------------------------------------------------------------------- judging

fn call_name(c: &OwnedCall) -> String {
    format!("{:?}", c.kind)
}

fn exit_violation(prop: &str, o: &Obs, sc: &Scenario) -> Option<Violation> {
    // Which operation was under way.
    let mut at = None;
    for (i, t) in o.recs.iter().enumerate() {
        for (j, r) in t.iter().enumerate() {
            if r.state == STARTED || r.state == HANG {
                at = Some((i, j));
            }
        }
    }
    let what = at.and_then(|(i, j)| sc.threads.get(i)?.get(j)).map(|s| s.call.encode()).unwrap_or_default();
    let m = match o.exit {
        Exit::Ok | Exit::Crashed => return None,
        Exit::Hang => "a call exceeded every step bound".to_string(),
        Exit::Timeout => "a call never returned".to_string(),
        Exit::Deadlock => "callers are blocked on each other for ever".to_string(),
        Exit::Stalled => return None,
        Exit::Signal(s) => format!("the process died of signal {s}"),
        Exit::Code(c) => format!("the process exited with code {c}"),
    };
    viol(format!("{prop} exit {:?}", o.exit), format!("{m}: {what}"), at)
}

fn differs(class: &str, what: &str, c: &OwnedCall, got: &Rec, want: &Rec, at: Option<(usize, usize)>) -> Option<Violation> {
    viol(format!("{class} {}", call_name(c)), format!("{what}\n  call     {}\n  observed {}\n  expected {}", c.encode(), got.show(), want.show()), at)
}

/// The text accepted so far is a prefix of what a healthy writer receives.
fn prefix_ok(w: &mut World, c: &OwnedCall, rec: &Rec, cache: &mut Vec<(OwnedCall, Vec<u8>)>) -> bool {
    if rec.text_len == 0 {
        return true;
    }
    if !cache.iter().any(|x| x.0 == *c) {
        let t = w.run.iso_text(c, true).1;
        cache.push((c.clone(), t));
    }
    let t = &cache.iter().find(|x| x.0 == *c).unwrap().1;
    let n = rec.text_len as usize;
    if n > TEXT {
        return true;
    }
    n <= t.len() && text_hash(&t[..n]) == rec.text_hash
}

pub fn judge(prop: &str, sc: &Scenario, w: &mut World) -> Judged {
    w.run.cap_heap = prop == "C11";
    match prop {
        "C05" => judge_history(sc, w),
        "C06" | "C07" | "C08" | "C13" | "C14" | "C15" => judge_durable(prop, sc, w),
        _ => {
            let obs = if matches!(prop, "C03" | "C04") {
                // A call that takes many times the steps it takes alone has met someone else's lock.
                let spare = if prop == "C04" { 100_000 } else { 5_000_000 };
                let caps: Vec<Vec<u64>> = sc.threads.iter().map(|t| t.iter().map(|s| 20 * w.run.iso(&s.call).steps + spare).collect()).collect();
                w.run.run_capped(sc, &caps)
            } else {
                w.run.run(sc)
            };
            let (mut violation, nontrivial) = judge_immediate(prop, sc, w, &obs);
            if violation.is_none() && sc.params.contains_key("plain") {
                // Once more in the build where every operation of the source is really executed.
                let mut early = sc.clone();
                for s in early.threads.iter_mut().flatten() {
                    if let Some(f) = s.faults.first_mut() {
                        f.at = Point::Start;
                    }
                }
                w.plain_runs += 1;
                let o = w.plain.get_or_insert_with(|| Replica::start("SIM_PLAIN")).run(&early);
                violation = judge_immediate(prop, &early, w, &o).0.map(|mut v| {
                    v.detail = format!("(build without optimisation) {}", v.detail);
                    v
                });
            }
            if violation.is_none() && w.has_foreign && sc.params.contains_key("weak") {
                violation = judge_weak(sc, w);
            }
            Judged { violation, obs, nontrivial, note: 0 }
        }
    }
}

/// The same threads where a thread may read what is no longer the newest value, as the memory
/// model of the language allows.
fn judge_weak(sc: &Scenario, w: &mut World) -> Option<Violation> {
    let rate = WEAK_RATES[sc.p("rate") as usize % WEAK_RATES.len()];
    let recs = match weak(sc, sc.p("weak") as u64, rate)? {
        Ok(r) => r,
        Err(e) => return viol("C03 weak", format!("the process {e}"), None),
    };
    w.foreign_runs += 1;
    w.foreign_calls += recs.len() as u64;
    let calls = sc.threads.iter().enumerate().flat_map(|(i, t)| t.iter().enumerate().map(move |(j, s)| (i, j, &s.call)));
    for ((i, j, c), r) in calls.zip(&recs) {
        let iso = w.run.iso(c);
        if !r.same(&iso) {
            return differs("C03 weak", "under weak memory a concurrent call differs from the same call alone", c, r, &iso, Some((i, j)));
        }
    }
    None
}

fn judge_immediate(prop: &str, sc: &Scenario, w: &mut World, o: &Obs) -> (Option<Violation>, bool) {
    let mut nontrivial = match prop {
        "C01" => o.fired[0] + o.fired[1] + o.fired[2] > 0,
        "C02" => o.fired[3] + o.fired[4] + o.fired[5] + o.fired[6] > 0,
        "C03" => o.fired[9] > 1,
        "C04" => o.fired[8] > 0,
        "C09" | "C12" => true,
        "C10" => o.fired[5] + o.fired[6] > 0,
        "C11" => o.recs[0].iter().any(|r| r.allocs > 0),
        _ => true,
    };
    let mut texts = vec![];
    let mut complete: Vec<OwnedCall> = vec![];
    let stalled: Vec<bool> = sc.threads.iter().map(|t| t.iter().any(|s| s.faults.iter().any(|f| f.act == Act::Stall))).collect();
    if prop == "C03" && o.exit == Exit::Timeout {
        // Nothing wrong was returned; a wait that never ends is what C04 decides.
        return (None, false);
    }
    if prop == "C04" {
        // A thread parked for ever by the scenario holds nobody up: everyone else finished.
        if o.deadlock {
            return (viol("C04 blocked", "a call waits for ever on a caller that is stalled or dead", None), true);
        }
    }
    if let Some(v) = exit_violation(prop, o, sc) {
        return (Some(v), true);
    }
    for (ti, t) in sc.threads.iter().enumerate() {
        for (j, st) in t.iter().enumerate() {
            let at = Some((ti, j));
            let rec = &o.recs[ti][j];
            let c = &st.call;
            if rec.state == NOTRUN || rec.state == STARTED {
                if prop == "C04" && stalled[ti] {
                    continue;
                }
                return (viol(format!("{prop} never returned"), format!("a call never returned: {}", c.encode()), at), true);
            }
            let iso = w.run.iso(c);
            let bad = |what: &str| differs(&format!("{prop} {what}"), what, c, rec, &iso, at);
            match prop {
                "C01" => {
                    if iso.state != DONE {
                        if c.f != DD {
                            return (bad("printing into a healthy writer does not return"), true);
                        }
                        continue;
                    }
                    if iso.out.res != 1 {
                        return (bad("printing into a healthy writer reports an error"), true);
                    }
                    if !complete.contains(c) {
                        if let Some(v) = incomplete(w, c, &iso, &mut texts) {
                            return (differs("C01 incomplete", &v, c, &iso, &iso, at), true);
                        }
                        complete.push(c.clone());
                    }
                    if rec.state != DONE {
                        return (bad("printing into a failing writer does not return"), true);
                    }
                    if rec.sink_errs > 0 {
                        if rec.out.res != 2 {
                            return (bad("the writer failed but printing reports success"), true);
                        }
                        if rec.after_err > 0 {
                            return (bad("text was sent to the writer after it had failed"), true);
                        }
                        if !prefix_ok(w, c, rec, &mut texts) {
                            return (bad("what the writer accepted is not a prefix of the text"), true);
                        }
                    } else if !rec.same(&iso) {
                        return (bad("printing into a healthy writer differs"), true);
                    }
                }
                "C02" => {
                    let cut = matches!(rec.state, SINKPANIC | ALLOCFAIL) || rec.refused > 0;
                    match rec.state {
                        SINKPANIC | ALLOCFAIL => {
                            if rec.state == ALLOCFAIL && rec.refused == 0 {
                                return (bad("allocation failure without a refused request"), true);
                            }
                            if !prefix_ok(w, c, rec, &mut texts) {
                                return (bad("interrupted printing delivered wrong text"), true);
                            }
                        }
                        _ => {
                            if !rec.same(&iso) {
                                let what = if st.faults.is_empty() { "a later call differs from the same call in a fresh process" } else { "re-entry changed the outer call" };
                                return (bad(what), true);
                            }
                        }
                    }
                    if cut && rec.live != 0 {
                        return (bad(&format!("{} bytes still held after the interrupted call unwound", rec.live)), true);
                    }
                }
                "C03" => {
                    if !rec.same(&iso) {
                        return (bad("a concurrent call differs from the same call alone"), true);
                    }
                }
                "C04" => {
                    let bound = step_bound(c);
                    if iso.steps > bound {
                        return (viol(format!("C04 bound {}", call_name(c)), format!("{} steps, bound {bound}: {}", iso.steps, c.encode()), at), true);
                    }
                    if rec.state == DONE && rec.steps > 4 * iso.steps + 2000 {
                        return (viol(format!("C04 contention {}", call_name(c)), format!("{} steps beside other calls, {} alone: {}", rec.steps, iso.steps, c.encode()), at), true);
                    }
                }
                "C09" => {
                    if rec.allocs > 0 {
                        return (bad(&format!("{} memory requests by an operation that needs none", rec.allocs)), true);
                    }
                    if !rec.same(&iso) {
                        return (bad("the outcome depends on the allocator"), true);
                    }
                }
                "C10" => {
                    if rec.state == ALLOCFAIL {
                        if rec.refused == 0 {
                            return (bad("allocation failure without a refused request"), true);
                        }
                        if !prefix_ok(w, c, rec, &mut texts) {
                            return (bad("wrong text before the allocation failure"), true);
                        }
                    } else if !rec.same(&iso) {
                        let what = if rec.refused > 0 { "a refused memory request yields a wrong outcome" } else { "the call does not recover after an allocation failure" };
                        return (bad(what), true);
                    }
                    if rec.refused > 0 && rec.live != 0 {
                        return (bad(&format!("{} bytes leaked by a failed call", rec.live)), true);
                    }
                }
                "C11" => {
                    if !rec.same(&iso) {
                        return (bad("the outcome depends on where memory is or what it held"), true);
                    }
                    let bound = heap_bound(c);
                    for x in [rec, &iso] {
                        if x.peak > bound || x.biggest > bound {
                            return (bad(&format!("{} bytes of heap live in one call (largest request {}), bound {bound}", x.peak, x.biggest)), true);
                        }
                    }
                    if rec.live != 0 {
                        return (bad(&format!("{} bytes not released", rec.live)), true);
                    }
                }
                "C12" => {
                    if !rec.same(&iso) {
                        return (bad("the outcome depends on the host floating-point environment"), true);
                    }
                    if rec.fp_changed != 0 {
                        return (bad("the host floating-point environment was changed"), true);
                    }
                    if rec.fp_flags != 0 || iso.fp_flags != 0 {
                        return (bad(&format!("host floating-point exception flags raised: {:x}", rec.fp_flags | iso.fp_flags)), true);
                    }
                    if st.faults.iter().any(|f| f.at != Point::Start) {
                        nontrivial = true;
                    }
                }
                _ => {}
            }
        }
    }
    for (i, st) in sc.nested.iter().enumerate().take(MAX_NESTED) {
        let rec = &o.nested[i];
        // One that was itself interrupted is judged by what its interruption leaves behind.
        if rec.state == NOTRUN || st.faults.iter().any(|f| !matches!(f.act, Act::Nest(_))) {
            continue;
        }
        let c = &st.call;
        let iso = w.run.iso(c);
        if !rec.same(&iso) {
            return (differs("C02 nested", "a call made from inside the writer differs from the same call alone", c, rec, &iso, None), true);
        }
    }
    if prop == "C02" || prop == "C10" {
        // Nothing is held once every call is over.
        let dirty = o.recs[0].iter().any(|r| r.state == PANICKED);
        if o.heap_live != 0 && !dirty && o.recs[0].iter().any(|r| r.refused > 0 || r.state == SINKPANIC) {
            let alone: i64 = sc.threads[0].iter().map(|s| w.run.iso(&s.call).live).sum();
            if alone == 0 {
                return (viol(format!("{prop} heap"), format!("{} bytes of heap held after every call is over", o.heap_live), None), true);
            }
        }
    }
    (None, nontrivial)
}

/// Lets the calls made from inside a writer be interrupted too: by further calls from their own
/// writer, to any depth, and by writers that refuse or panic.
fn nest_deeper(r: &mut Rng, w: &mut World, sc: &mut Scenario, bases: &[OwnedCall], dd: bool) {
    if r.chance(1, 3) {
        return;
    }
    let deep = r.chance(1, 3);
    if deep {
        while sc.nested.len() < 3 + r.below(MAX_NESTED as u64 - 2) as usize {
            let c = match r.below(3) {
                0 => r.pick(bases).clone(),
                1 => {
                    let b = r.pick(bases).clone();
                    gen::variant(r, &b)
                }
                _ => print_call(r, dd),
            };
            sc.nested.push(Step::new(c));
        }
    }
    let n = sc.nested.len().min(MAX_NESTED);
    let mut cost = vec![0; n];
    for i in (0..n).rev() {
        let iso = w.run.iso(&sc.nested[i].call);
        let (m, len, mut all) = (iso.chunks as u64, iso.text_len.max(1) as u64, iso.steps + 400);
        if m > 0 {
            let at = |r: &mut Rng| if r.chance(1, 2) { Point::Chunk(1 + r.below(m)) } else { Point::Char(r.below(len)) };
            if i + 1 < n {
                for _ in 0..1 + r.below(4) / 3 {
                    let j = if deep || r.chance(1, 2) { i + 1 } else { i + 1 + r.below((n - i - 1) as u64) as usize };
                    if all + cost[j] < 400_000 {
                        let f = Fault { at: at(r), act: Act::Nest(j as u64) };
                        all += cost[j];
                        sc.nested[i].faults.push(f);
                    }
                }
            }
            if r.chance(1, 4) {
                let f = Fault { at: at(r), act: *r.pick(&[Act::Err, Act::Partial, Act::Panic, Act::Panic]) };
                sc.nested[i].faults.push(f);
            }
        }
        cost[i] = all;
    }
}

/// The text a healthy writer received must be all of it: enough to tell the value from any other
/// when no precision is asked for, else within one unit of the last digit asked for, with the
/// padding the alternate form promises.
fn incomplete(w: &mut World, c: &OwnedCall, iso: &Rec, cache: &mut Vec<(OwnedCall, Vec<u8>)>) -> Option<String> {
    if (c.f == DD && c.kind != Kind::Display) || iso.text_len as usize > TEXT || iso.steps > 30_000_000 {
        return None;
    }
    let mut text = |c: &OwnedCall| {
        if !cache.iter().any(|x| x.0 == *c) {
            let t = w.run.iso_text(c, true).1;
            cache.push((c.clone(), t));
        }
        String::from_utf8_lossy(&cache.iter().find(|x| x.0 == *c).unwrap().1).into_owned()
    };
    let s = text(c);
    match c.kind {
        Kind::Debug => {
            // Whatever the layout, it shows the value and is closed.
            let mut plain = c.clone();
            plain.kind = Kind::Display;
            plain.spec = Default::default();
            let number = text(&plain);
            let m = model::fmt(c.f);
            if m.decode(c.a).c == model::C::Fin && c.spec == Default::default() && !s.contains(&number) {
                return Some(format!("the debug text {s:?} does not show the value {number:?}"));
            }
            None
        }
        Kind::Display => incomplete_display(c, s.trim_end_matches('\0')),
        _ => None,
    }
}

fn incomplete_display(c: &OwnedCall, s: &str) -> Option<String> {
    let (m, v) = if c.f == DD {
        // As a number of 106 bits.
        let x = model::dd::decode(c.a);
        if matches!(x.lo.c, model::C::NaN | model::C::Inf) {
            return None;
        }
        (model::dd::wide(), model::dd::join(x))
    } else {
        let m = model::fmt(c.f);
        (m, m.decode(c.a))
    };
    let prec = c.spec.prec.map(|p| p as usize).filter(|&p| p != 0);
    let bad = |what: &str| Some(format!("the text delivered {what}: {s:?}"));
    match v.c {
        model::C::NaN => return if s == "NaN" { None } else { bad("is not that of a NaN") },
        model::C::Inf => return if s == if v.neg { "-Inf" } else { "+Inf" } { None } else { bad("is not that of an infinity") },
        _ => {}
    }
    if prec.is_none() {
        match m.parse(s, 0) {
            Some(Ok((x, _))) if m.encode(x) == m.encode(v) => {}
            None => return None,
            _ => return bad("does not denote the value"),
        }
    }
    // [-]digits[.digits][E[+-]digits]
    let (neg, t) = match s.strip_prefix('-') {
        Some(t) => (true, t),
        None => (false, s),
    };
    let (mant, exp) = match t.split_once(['e', 'E']) {
        Some((m, e)) => (m, e.parse::<i64>().ok()),
        None => (t, Some(0)),
    };
    let (int, frac) = mant.split_once('.').unwrap_or((mant, ""));
    let digits: String = [int, frac].concat();
    let exp = match exp {
        Some(e) if neg == v.neg && !digits.is_empty() && digits.bytes().all(|b| b.is_ascii_digit()) && e.abs() < 40_000 => e,
        _ => return bad("is no numeral of this value"),
    };
    let scientific = t.contains(['e', 'E']);
    if c.spec.width == Some(0) && !scientific {
        return bad("lacks its exponent");
    }
    let alt = c.spec.alt && !(c.spec.width.is_some() && c.spec.fill > 0);
    if alt && scientific {
        let want = match (v.c, c.spec.prec) {
            (model::C::Zero, Some(n)) => (n as usize).max(1),
            (model::C::Zero, None) => 1,
            _ => prec.unwrap_or(2 + m.p as usize * 59 / 196),
        };
        if frac.len() != want {
            return bad(&format!("lacks padding ({want} digits after the point)"));
        }
    }
    let Some(prec) = prec else { return None };
    if v.c == model::C::Zero {
        return if digits.bytes().all(|b| b == b'0') { None } else { bad("is not zero") };
    }
    // |digits * 10^q - sig * 2^e| < 10^(e10 - prec + 1), all scaled to integers.
    use model::big::Big;
    let q = exp - frac.len() as i64;
    let mut d = Big::from_u128(0);
    for b in digits.bytes() {
        d = d.mul_small(10, (b - b'0') as u32);
    }
    let (sig, e) = (Big::from_u128(v.sig), v.e);
    // The decimal exponent of the value.
    let mut e10 = ((sig.bits() + e - 1) * 30103).div_euclid(100_000);
    let pow10 = |n: i64| Big::pow(10, n.max(0) as u32);
    let scale2 = |x: &Big, n: i64| if n > 0 { x.shl(n) } else { x.clone() };
    // sig * 2^e >= 10^k
    let at_least = |k: i64| scale2(&sig, e).mul(&pow10(-k)).cmp(&scale2(&pow10(k), -e)) != std::cmp::Ordering::Less;
    while at_least(e10 + 1) {
        e10 += 1;
    }
    while !at_least(e10) {
        e10 -= 1;
    }
    let unit = e10 - prec as i64 + 1;
    let s10 = (-q.min(unit)).max(0);
    let x = scale2(&d.mul(&pow10(q + s10)), -e);
    let y = scale2(&sig, e).mul(&pow10(s10));
    let u = scale2(&pow10(unit + s10), -e);
    let diff = if x.cmp(&y) == std::cmp::Ordering::Less { y.sub(&x) } else { x.sub(&y) };
    if diff.cmp(&u) != std::cmp::Ordering::Less {
        return bad(&format!("is off by a unit in digit {prec} or more"));
    }
    None
}

pub fn heap_bound(c: &OwnedCall) -> u64 {
    let range: u64 = match c.f {
        3 | 7 => 32768,
        2 | 8 => 2048,
        1 | 4 => 256,
        _ => 64,
    };
    let spec = c.spec.prec.unwrap_or(0) as u64 + c.spec.width.unwrap_or(0) as u64;
    16_384 + 64 * (c.text.len() as u64 + spec) + 16 * range
}

fn judge_history(sc: &Scenario, w: &mut World) -> Judged {
    let pool = &sc.threads[0];
    let expect: Vec<Rec> = pool.iter().map(|s| w.run.iso(&clear_prior(&s.call))).collect();
    let (obs, order) = w.run.history(sc, &History { pool, expect: &expect });
    let mut violation = None;
    if obs.mismatch >= 0 {
        let n = obs.mismatch as usize;
        let i = order.get(n).copied().unwrap_or(0) as usize;
        let c = &pool[i].call;
        violation = match obs.exit {
            Exit::Ok => differs("C05", &format!("call number {} of the history differs from the same call in a fresh process", n + 1), c, &obs.recs[0][1], &expect[i], Some((0, i))),
            e => viol(format!("C05 exit {e:?}"), format!("call number {} of the history: {e:?}: {}", n + 1, c.encode()), Some((0, i))),
        };
    }
    let nontrivial = order.len() > 1;
    Judged { violation, nontrivial, note: order.len() as u64, obs }
}

fn well_formed(k: u64) -> bool {
    // Exactly one category, and predicates that agree with it.
    let b = |i: u32| k >> i & 1 == 1;
    let (inf, nan, normal, zero) = (b(0), b(1), b(2), b(3));
    if inf as u8 + nan as u8 + normal as u8 + zero as u8 != 1 {
        return false;
    }
    let p = |i: u32| b(4 + i);
    // negative, normal, finite, zero, denormal, infinite, nan, signaling, non_zero,
    // finite_non_zero, pos_zero, neg_zero, pos_inf, neg_inf
    p(2) == (normal || zero) && p(3) == zero && p(5) == inf && p(6) == nan && p(8) != zero && p(9) == normal && (!p(4) || normal) && (!p(7) || nan) && p(10) == (zero && !p(0)) && p(11) == (zero && p(0)) && p(12) == (inf && !p(0)) && p(13) == (inf && p(0)) && p(1) == (normal && !p(4))
}

fn judge_durable(prop: &str, sc: &Scenario, w: &mut World) -> Judged {
    let steps = &sc.threads[0];
    if prop == "C13" {
        return judge_replicas(sc, w);
    }
    let obs = w.run.durable(sc);
    let nontrivial = obs.restarts > 0;
    let mut violation = exit_violation(prop, &obs, &Scenario::default());
    if violation.is_some() {
        if let Some(r) = obs.recs[0].iter().find(|r| r.state == STARTED || r.state == HANG) {
            let (k, pc, reg) = dur::untag(r.tag);
            let v = violation.as_mut().unwrap();
            v.detail.push_str(&match k {
                dur::T_STEP => format!("step {pc}: {}", steps[pc as usize].call.encode()),
                _ => format!("while storing or loading register {reg}"),
            });
            v.at = Some((0, pc as usize));
        }
        return Judged { violation, obs, nontrivial, note: 0 };
    }
    let log = obs.recs[0].clone();
    let mut v = None;
    match prop {
        "C06" | "C07" => {
            let tw = w.run.twin(sc);
            let find = |t: u32| tw.recs[0].iter().find(|r| r.tag == t);
            let index: std::collections::HashMap<u32, usize> = tw.recs[0].iter().enumerate().map(|(i, r)| (r.tag, i)).collect();
            let _ = find;
            for r in &log {
                let (k, pc, reg) = dur::untag(r.tag);
                if k == dur::T_LOAD {
                    if r.state == PANICKED && sc.regs[reg as usize].0 != DD {
                        v = viol(format!("{prop} load"), format!("storing or loading register {reg} panicked"), None);
                        break;
                    }
                    continue;
                }
                if k == dur::T_ARCHIVE {
                    let c = &sc.threads[1][pc as usize].call;
                    if r.state != DONE || r.out.res != 1 || r.out.flag != 0 {
                        v = viol(format!("{prop} archive"), format!("{} {:x}, stored as text in one life, reads back in a later one as {}", shim::FMT_NAMES[c.f as usize], c.a, r.show()), None);
                        break;
                    }
                    continue;
                }
                let Some(&i) = index.get(&r.tag) else { continue };
                let t = &tw.recs[0][i];
                if !r.same(t) {
                    v = match k {
                        dur::T_STEP => differs(prop, &format!("step {pc} differs after the restart"), &steps[pc as usize].call, r, t, Some((0, pc as usize))),
                        dur::T_PROBE => viol(format!("{prop} probe"), format!("register {reg} ({}) reads back differently at step {pc}\n  observed {}\n  expected {}", shim::FMT_NAMES[sc.regs[reg as usize].0 as usize], r.show(), t.show()), None),
                        _ => viol(format!("{prop} final"), format!("register {reg} ends differently\n  observed {}\n  expected {}", r.show(), t.show()), None),
                    };
                    break;
                }
            }
        }
        "C08" => {
            for r in &log {
                let (k, pc, reg) = dur::untag(r.tag);
                let name = |i: usize| shim::FMT_NAMES[sc.regs[i].0 as usize];
                if r.state != DONE {
                    v = match k {
                        dur::T_STEP => viol(format!("C08 panic {}", call_name(&steps[pc as usize].call)), format!("step {pc} {}: {}", STATE_NAMES[r.state as usize % 7], steps[pc as usize].call.encode()), Some((0, pc as usize))),
                        _ => viol("C08 load panic", format!("loading or storing register {reg} ({}) {}", name(reg as usize), STATE_NAMES[r.state as usize % 7]), None),
                    };
                    break;
                }
                if k == dur::T_STEP && r.steps > step_bound(&steps[pc as usize].call) {
                    v = viol("C08 steps", format!("{} steps: {}", r.steps, steps[pc as usize].call.encode()), Some((0, pc as usize)));
                    break;
                }
                if k == dur::T_LOAD && r.steps > 12_000_000 {
                    v = viol("C08 load steps", format!("{} steps to load register {reg}", r.steps), None);
                    break;
                }
                if k == dur::T_LOAD && r.out.res == 1 {
                    let o = &r.out;
                    let f = sc.regs[reg as usize].0;
                    let why = if !well_formed(o.aux) {
                        "the loaded value is not well formed"
                    } else if gen::width(f) < 128 && o.bits >> gen::width(f) != 0 {
                        "the loaded value stores to bits above its width"
                    } else if o.ival != o.bits || o.flag != 0 {
                        "storing the loaded value and loading it again changes it"
                    } else if o.status != 0 {
                        "storing the loaded value as text and loading it again changes it"
                    } else {
                        continue;
                    };
                    v = viol(format!("C08 load {}", why), format!("{why} (register {reg}, {}): {}", name(reg as usize), r.show()), None);
                    break;
                }
            }
        }
        "C14" | "C15" => v = against_model(prop, sc, &log),
        _ => {}
    }
    Judged { violation: v, obs, nontrivial, note: 0 }
}

/// The fault-free reference machine runs the program on bit patterns.
fn against_model(prop: &str, sc: &Scenario, log: &[Rec]) -> Option<Violation> {
    let steps = &sc.threads[0];
    let canon = |f: u8, b: u128| {
        if f == DD {
            return b;
        }
        let m = model::fmt(f);
        m.encode(m.decode(b))
    };
    let mut regs: Vec<u128> = sc.regs.iter().map(|&(f, b)| canon(f, b)).collect();
    let mut acc = 0u8;
    let mut open = false;
    let mut want = vec![];
    for st in steps {
        let mut c = st.call.clone();
        let f = c.f;
        let get = |k: usize, imm: u128| {
            let s = st.src[k] as usize;
            if s < regs.len() && sc.regs[s].0 == f {
                regs[s]
            } else {
                imm
            }
        };
        let (a, b, d) = (get(0, c.a), get(1, c.b), get(2, c.c));
        c.a = a;
        c.b = b;
        c.c = d;
        let dst = st.dst as usize;
        let Some(o) = model::eval_any(&c.call()) else {
            // Where there is no definition a step on pairs still has some outcome.
            if c.f != DD || dst < regs.len() {
                return None;
            }
            open = true;
            want.push((c, None));
            continue;
        };
        acc |= o.status;
        if dst < regs.len() {
            let tf = if c.kind == Kind::Convert { c.g } else { f };
            if o.has_val == 1 && tf == sc.regs[dst].0 {
                regs[dst] = o.bits;
            } else if c.kind == Kind::FromStr && o.res == 2 {
                regs[dst] = 0;
            }
        }
        want.push((c, Some(o)));
    }
    for r in log {
        let (k, pc, reg) = dur::untag(r.tag);
        match k {
            dur::T_STEP => {
                let (c, Some(o)) = &want[pc as usize] else {
                    if r.state == PANICKED {
                        return viol(format!("{prop} step"), format!("step {pc} panicked: {}", want[pc as usize].0.encode()), Some((0, pc as usize)));
                    }
                    continue;
                };
                let mut got = r.out;
                if got.res == 2 && o.res == 2 {
                    got.aux = o.aux;
                }
                if r.state != DONE || got != *o {
                    let w = Rec { state: DONE, out: *o, ..Rec::EMPTY };
                    return differs(prop, &format!("step {pc} differs from the reference machine"), c, r, &w, Some((0, pc as usize)));
                }
                if c.f == DD && got.has_val == 1 {
                    let n = model::dd::error_units(&c.call(), got.bits).unwrap_or(0);
                    if n > PAIR_ERROR {
                        return viol(format!("{prop} error"), format!("step {pc} is off by {n} units of 2^-104 of its operands: {}", c.encode()), Some((0, pc as usize)));
                    }
                }
            }
            dur::T_LOAD => {
                if r.state == PANICKED {
                    return viol(format!("{prop} load"), format!("storing or loading register {reg} panicked"), None);
                }
            }
            dur::T_FINAL => {
                let i = reg as usize;
                if r.out.bits != regs[i] || (r.out.status != acc && !open) {
                    return viol(format!("{prop} final"), format!("register {reg} ends as {:x} with or-ed status {:05b}; the reference machine has {:x} and {:05b}", r.out.bits, r.out.status, regs[i], acc), None);
                }
            }
            _ => {}
        }
    }
    None
}

fn judge_replicas(sc: &Scenario, w: &mut World) -> Judged {
    // Replica 1: checked build, entries in order, no crash. Replica 2: optimised build, entries
    // reordered, delivered twice, with crash-restarts.
    let mut obs = w.run.twin(sc);
    let other = w.release.get_or_insert_with(|| Replica::start("SIM_REPLICA")).run(sc);
    obs.restarts = other.restarts;
    obs.redelivered = other.redelivered;
    for i in 0..12 {
        obs.fired[i] += other.fired[i];
    }
    let mut v = disagreement(sc, &obs, &other, "optimised");
    if v.is_none() && sc.params.contains_key("plain") {
        w.plain_runs += 1;
        let third = w.plain.get_or_insert_with(|| Replica::start("SIM_PLAIN")).run(sc);
        v = disagreement(sc, &obs, &third, "unoptimised");
    }
    if v.is_none() && w.has_foreign && sc.params.contains_key("foreign") && obs.ticks < 30_000 && obs.exit == Exit::Ok {
        match Foreign::run(&mut w.foreign, sc) {
            Ok(recs) => {
                w.foreign_runs += 1;
                w.foreign_calls += recs.len() as u64;
                let host = w.foreign.as_ref().map_or("foreign", |f| &f.host);
                v = disagreement(sc, &obs, &Obs { exit: Exit::Ok, recs: vec![recs], ..obs.clone() }, host);
            }
            Err(e) => v = viol("C13 foreign", format!("the replica on another kind of host {e} on a log the checked one applied in {} ticks", obs.ticks), None),
        }
    }
    Judged { violation: v, nontrivial: obs.restarts > 0 || obs.redelivered > 0, note: obs.redelivered, obs }
}

/// Compares what the checked replica and another one did.
fn disagreement(sc: &Scenario, obs: &Obs, other: &Obs, name: &str) -> Option<Violation> {
    let steps = &sc.threads[0];
    let mut v = None;
    if obs.exit != other.exit {
        v = viol("C13 exit", format!("the checked replica ended with {:?}, the {name} one with {:?}", obs.exit, other.exit), None);
    } else {
        let index: std::collections::HashMap<u32, usize> = obs.recs[0].iter().enumerate().map(|(i, r)| (r.tag, i)).collect();
        for r in &other.recs[0] {
            let (k, pc, reg) = dur::untag(r.tag);
            if k != dur::T_STEP && k != dur::T_FINAL {
                if r.state == PANICKED {
                    v = viol("C13 load", format!("storing or loading register {reg} panicked in the {name} replica"), None);
                    break;
                }
                continue;
            }
            let Some(&i) = index.get(&r.tag) else { continue };
            let t = &obs.recs[0][i];
            if !r.same(t) {
                v = match k {
                    dur::T_STEP => differs("C13", &format!("replicas disagree on entry {pc} (observed: {name}, reordered, restarted; expected: checked, in order)"), &steps[pc as usize].call, r, t, Some((0, pc as usize))),
                    _ => viol("C13 final", format!("replicas disagree on register {reg}\n  {name} {}\n  checked {}", r.show(), t.show()), None),
                };
                break;
            }
        }
    }
    v
}

/// What a check takes for granted, as JSON.
pub fn assumptions(p: &str) -> String {
    let mut v = vec!["simulated threads are interleaved at basic-block edges and accesses to non-stack memory, sequentially consistent: reorderings of a weak memory model are not explored here"];
    match p {
        "C03" | "C04" => {}
        _ => v.clear(),
    }
    v.push(if p == "C13" { "hosts: x86_64 natively, and 32-bit big-endian PowerPC as Miri interprets it" } else { "x86_64 host; behaviour on other hosts is C13's question" });
    v.push(match p {
        "C05" | "C03" | "C02" | "C12" | "C11" | "C10" | "C09" => "the outcome of a call made alone in a fresh process is taken as right; whether it is right is C14's question",
        "C06" | "C07" => "the crash-free twin is taken as right; whether it is right is C14's question",
        "C15" => "the reference machine follows the definitions in LLVM's APFloat that ppc.rs names; where they are silent (signalling NaN operands, sums of zeros of unlike sign, zero times infinity, a second part that is none) only a panic is condemned",
        "C14" => "the reference machine was written from IEEE 754-2019 and the documented extensions, independently of the library's code",
        "C13" => "either replica is taken as right if they agree; whether they are right is C14's question",
        _ => "outcomes of double-double operations that fail an assertion are compared, not condemned",
    });
    let q: Vec<String> = v.iter().map(|s| format!("\"{s}\"")).collect();
    format!("[{}]", q.join(", "))
}
