//! A replica that runs anywhere, made for an interpreter that plays another kind of host: it reads
//! logs as numbers, executes them with deliveries and restarts, and writes outcomes as numbers.
//! Hand-written input and output, since an interpreter pays for every statement.
//!
//! Given calls as its argument it makes them on several threads instead, under the
//! interpreter's seeded scheduler and its weak memory, and ends.
use shim::{Call, Kind, Out, Spec, Val, KINDS};
use std::io::{Read, Write};

struct Sink {
    hash: u64,
    len: u32,
    left: u64,
}
struct Crash;
impl std::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.left = self.left.saturating_sub(1);
        if self.left == 0 {
            std::panic::panic_any(Crash);
        }
        for &b in s.as_bytes() {
            self.hash = (self.hash ^ b as u64).wrapping_mul(0x100000001b3);
            self.len += 1;
        }
        Ok(())
    }
}

fn guarded<R>(left: u64, f: impl FnOnce(&mut Sink) -> R) -> (Result<R, bool>, Sink) {
    let mut w = Sink { hash: 0xcbf29ce484222325, len: 0, left };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut w)));
    (r.map_err(|e| e.is::<Crash>()), w)
}

fn put(out: &mut Vec<u8>, mut x: u128) {
    let at = out.len();
    while x != 0 {
        let d = (x & 15) as u8;
        out.push(if d < 10 { b'0' + d } else { b'a' - 10 + d });
        x >>= 4;
    }
    out[at..].reverse();
    out.push(b' ');
}

fn line(out: &mut Vec<u8>, what: u8, n: usize, done: bool, o: &Out, w: &Sink) {
    out.push(what);
    out.push(b' ');
    for x in [n as u128, done as u128, o.bits, o.ival, o.aux as u128, o.status as u128, o.flag as u128, o.res as u128, o.has_val as u128, w.hash as u128, w.len as u128] {
        put(out, x);
    }
    out.push(b'\n');
}

/// Hexadecimal numbers, each ended by one blank.
struct Input<'a>(&'a [u8]);
impl Input<'_> {
    fn num(&mut self) -> u128 {
        let mut x = 0;
        let mut i = 0;
        while self.0[i] != b' ' {
            let d = self.0[i];
            x = x << 4 | (if d < b'a' { d - b'0' } else { d - b'a' + 10 }) as u128;
            i += 1;
        }
        self.0 = &self.0[i + 1..];
        x
    }
    fn n(&mut self) -> usize {
        self.num() as usize
    }
}

struct Step {
    kind: Kind,
    n: [u128; 8],
    spec: Spec,
    prior: bool,
    alt: bool,
    text: String,
    dst: usize,
    src: [usize; 3],
    /// 0: none, 1: before, 2: after, more: in the chunk of that number, less 2.
    crash: usize,
}

fn load(f: u8, b: u128) -> Val {
    guarded(u64::MAX, |_| shim::load(f, b)).0.unwrap_or_else(|_| shim::zero(f))
}

fn steps(i: &mut Input) -> Vec<Step> {
    (0..i.n())
        .map(|_| {
            let kind = KINDS[i.n()];
            let n = [i.num(), i.num(), i.num(), i.num(), i.num(), i.num(), i.num(), i.num()];
            let mut o = || i.n().checked_sub(1).map(|x| x as u16);
            let (width, prec) = (o(), o());
            let flags = i.n();
            let spec = Spec { width, prec, alt: flags & 1 != 0, plus: flags & 2 != 0, fill: i.n() as u8 };
            let (dst, src, crash, len) = (i.n(), [i.n(), i.n(), i.n()], i.n(), i.n());
            let text = String::from_utf8(i.0[..len].to_vec()).unwrap();
            i.0 = &i.0[len..];
            Step { kind, n, spec, prior: flags & 4 != 0, alt: flags & 8 != 0, text, dst, src, crash }
        })
        .collect()
}

impl Step {
    fn call(&self) -> Call<'_> {
        let [f, g, round, a, b, c, int, w] = self.n;
        Call { kind: self.kind, f: f as u8, g: g as u8, round: round as u8, a, b, c, i: int as i128, w: w as u32, prior: self.prior, alt: self.alt, spec: self.spec, text: &self.text }
    }
}

fn execute(i: &mut Input, out: &mut Vec<u8>) {
    let every = i.n();
    let start: Vec<(u8, u128)> = (0..i.n()).map(|_| (i.n() as u8, i.num())).collect();
    let steps = steps(i);
    let order: Vec<usize> = (0..i.n()).map(|_| i.n()).collect();
    let mut crashed = vec![false; steps.len()];
    // What is on the disk: bits of the registers, position, statuses, entries applied.
    let mut disk: (Vec<u128>, usize, u32, Vec<bool>) = (start.iter().map(|r| r.1).collect(), 0, 0, vec![false; steps.len()]);
    'life: loop {
        let mut regs: Vec<Val> = start.iter().zip(&disk.0).map(|(r, &b)| load(r.0, b)).collect();
        let (mut pc, mut acc, mut applied) = (disk.1, disk.2, disk.3.clone());
        while pc < order.len() {
            let i = order[pc];
            if applied[i] {
                pc += 1;
                continue;
            }
            let st = &steps[i];
            let crash = if crashed[i] { 0 } else { st.crash };
            if crash == 1 {
                crashed[i] = true;
                continue 'life;
            }
            let c = st.call();
            let operand = |k: usize, bits: u128| -> Val {
                match regs.get(st.src[k]) {
                    Some(r) if r.fmt_id() == c.f => *r,
                    _ => shim::load(c.f, bits),
                }
            };
            let left = if crash > 2 { crash as u64 - 2 } else { u64::MAX };
            let (r, w) = guarded(left, |w| {
                let (a, b, cc) = (operand(0, c.a), operand(1, c.b), operand(2, c.c));
                shim::exec_live(&c, &a, &b, &cc, w)
            });
            if matches!(r, Err(true)) {
                crashed[i] = true;
                continue 'life;
            }
            match &r {
                Ok((o, v)) => {
                    line(out, b's', i, true, o, &w);
                    acc |= o.status as u32;
                    if let Some(d) = regs.get_mut(st.dst) {
                        if o.has_val == 1 && v.fmt_id() == d.fmt_id() {
                            *d = *v;
                        } else if c.kind == Kind::FromStr && o.res == 2 {
                            *d = shim::zero(d.fmt_id());
                        }
                    }
                }
                Err(_) => line(out, b's', i, false, &Out::default(), &w),
            }
            applied[i] = true;
            if crash == 2 {
                crashed[i] = true;
                continue 'life;
            }
            pc += 1;
            if pc % every == 0 {
                disk = (regs.iter().map(|v| guarded(u64::MAX, |_| v.to_bits()).0.unwrap_or(0)).collect(), pc, acc, applied.clone());
            }
        }
        for (i, v) in regs.iter().enumerate() {
            let (r, w) = guarded(u64::MAX, |_| Out { bits: v.to_bits(), aux: shim::classify_val(v), status: acc as u8, ..Out::default() });
            line(out, b'f', i, r.is_ok(), &r.unwrap_or_default(), &w);
        }
        return;
    }
}

/// Every thread makes its calls as soon as all are ready; what each call did, in order.
fn threads(i: &mut Input, out: &mut Vec<u8>) {
    let all: Vec<Vec<Step>> = (0..i.n()).map(|_| steps(i)).collect();
    let gate = std::sync::Barrier::new(all.len());
    let gate = &gate;
    std::thread::scope(|s| {
        let running: Vec<_> = all
            .iter()
            .map(|t| {
                s.spawn(move || {
                    let mut out = vec![];
                    gate.wait();
                    for (n, st) in t.iter().enumerate() {
                        let c = st.call();
                        let (r, w) = guarded(u64::MAX, |w| shim::exec(&c, w));
                        line(&mut out, b's', n, r.is_ok(), &r.unwrap_or_default(), &w);
                    }
                    out
                })
            })
            .collect();
        for r in running {
            out.extend_from_slice(&r.join().unwrap());
        }
    });
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    if let Some(text) = std::env::args().nth(1) {
        let mut out = vec![];
        threads(&mut Input(text.as_bytes()), &mut out);
        out.extend_from_slice(b"end\n");
        let _ = std::io::stdout().write_all(&out);
        return;
    }
    let (i, o) = (std::io::stdin(), std::io::stdout());
    let mut o = o.lock();
    let kind = if cfg!(target_endian = "big") { "big" } else { "little" };
    let _ = writeln!(o, "host {kind}-endian {}-bit", usize::BITS);
    let _ = o.flush();
    let mut i = i.lock();
    loop {
        let mut n = [0; 9];
        if i.read_exact(&mut n).is_err() {
            return;
        }
        let mut text = vec![0; Input(&n).n()];
        if i.read_exact(&mut text).is_err() {
            return;
        }
        let mut out = vec![];
        execute(&mut Input(&text), &mut out);
        out.extend_from_slice(b"end\n");
        let _ = o.write_all(&out);
        let _ = o.flush();
    }
}
