//! The reference for pairs of doubles, with LLVM's documented definitions: sums and products by
//! Linnainmaa's doubled-precision algorithms over correctly rounded doubles; all else as one
//! correctly rounded operation on a number of 106 consecutive bits, which is then split into the
//! nearest double and the rest. Evaluates nothing where these definitions are silent.
use crate::big::Big;
use crate::{exact_add, fmt, ord_code, Fmt, Fp, C};
use shim::{Call, Kind, Out};
use std::cmp::Ordering;

#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub struct Dd {
    pub hi: Fp,
    pub lo: Fp,
}

fn d() -> Fmt {
    fmt(2)
}

/// 106 consecutive bits over the range of a double; every multiple of the smallest double.
pub fn wide() -> Fmt {
    Fmt { bits: 128, p: 106, emin: -1022 + 53, emax: 1023, nan_only: false, x87: false }
}

pub fn decode(bits: u128) -> Dd {
    Dd { hi: d().decode(bits as u64 as u128), lo: d().decode(bits >> 64) }
}

pub fn encode(x: Dd) -> u128 {
    d().encode(x.hi) | d().encode(x.lo) << 64
}

fn single(hi: Fp) -> Dd {
    Dd { hi, lo: d().zero(false) }
}

fn neg(x: Dd) -> Dd {
    let f = |x: Fp| Fp { neg: !x.neg, ..x };
    Dd { hi: f(x.hi), lo: if x.lo.c == C::Fin { f(x.lo) } else { x.lo } }
}

/// The leading double is the nearest to the sum of both.
pub fn canonical(x: Dd) -> bool {
    if x.hi.c != C::Fin {
        return x.lo.c == C::Zero;
    }
    x.lo.c == C::Zero || x.lo.c == C::Fin && d().add(x.hi, x.lo, 0).0 == x.hi
}

/// Exact value of a finite pair.
pub fn exact(x: Dd) -> (bool, Big, i64) {
    let b = |x: Fp| Big::from_u128(if x.c == C::Fin { x.sig } else { 0 });
    match (x.hi.c, x.lo.c) {
        (C::Fin, C::Fin) => exact_add((x.hi.neg, &b(x.hi), x.hi.e), (x.lo.neg, &b(x.lo), x.lo.e)),
        (_, C::Fin) => (x.lo.neg, b(x.lo), x.lo.e),
        _ => (x.hi.neg, b(x.hi), x.hi.e),
    }
}

fn nan(x: Dd) -> bool {
    x.hi.c == C::NaN
}

/// As one number of 106 bits.
pub fn join(x: Dd) -> Fp {
    let (d, w) = (d(), wide());
    if x.hi.c != C::Fin {
        return d.convert(x.hi, &w, 0).0;
    }
    let (n, m, e) = exact(x);
    if m.is_zero() {
        return w.zero(false);
    }
    w.round(n, &m, e, false, 0).0
}

/// Back to a pair. Beyond the largest one it overflows in the direction of `rm`.
pub fn split(x: Fp, rm: u8) -> (Dd, u8) {
    let (d, w) = (d(), wide());
    let (hi, s, _) = w.convert(x, &d, 0);
    if s & crate::OVERFLOW != 0 {
        let out = match rm {
            0 | 4 => true,
            1 => !x.neg,
            2 => x.neg,
            _ => false,
        };
        if out {
            return (single(hi), crate::OVERFLOW | crate::INEXACT);
        }
        let r = largest();
        return (if x.neg { neg(r) } else { r }, crate::INEXACT);
    }
    if x.c != C::Fin || hi.c != C::Fin {
        return (single(hi), 0);
    }
    let b = |x: Fp| Big::from_u128(x.sig);
    let (n, m, e) = exact_add((x.neg, &b(x), x.e), (!hi.neg, &b(hi), hi.e));
    if m.is_zero() {
        return (single(hi), 0);
    }
    (Dd { hi, lo: d.round(n, &m, e, false, 0).0 }, 0)
}

/// A chain of operations on doubles, collecting their status.
struct Chain {
    s: u8,
    rm: u8,
}
impl Chain {
    fn add(&mut self, a: Fp, b: Fp) -> Fp {
        let (r, s) = d().add(a, b, self.rm);
        self.s |= s;
        r
    }
    fn sub(&mut self, a: Fp, b: Fp) -> Fp {
        let (r, s) = d().sub(a, b, self.rm);
        self.s |= s;
        r
    }
    fn mul(&mut self, a: Fp, b: Fp) -> Fp {
        let (r, s) = d().mul(a, b, self.rm);
        self.s |= s;
        r
    }
    fn fma(&mut self, a: Fp, b: Fp, c: Fp) -> Fp {
        let (r, s) = d().mul_add(a, b, c, self.rm);
        self.s |= s;
        r
    }
}

fn infinite_or_nan(x: Fp) -> bool {
    matches!(x.c, C::Inf | C::NaN)
}

fn add(x: Dd, y: Dd, rm: u8) -> Option<(Dd, u8)> {
    match (x.hi.c, y.hi.c) {
        (C::Inf, C::Inf) if x.hi.neg != y.hi.neg => return Some((single(Fp { neg: x.hi.neg, ..d().qnan(None) }), crate::INVALID)),
        // The sign of a sum of zeros is not defined for pairs.
        (C::Zero, C::Zero) if x.hi.neg != y.hi.neg => return None,
        (C::NaN, _) | (C::Inf, _) => return Some((if nan(y) && !nan(x) { y } else { x }, 0)),
        (_, C::NaN) | (_, C::Inf) => return Some((y, 0)),
        (_, C::Zero) => return Some((x, 0)),
        (C::Zero, _) => return Some((y, 0)),
        _ => {}
    }
    let (a, aa, c, cc) = (x.hi, x.lo, y.hi, y.lo);
    let mut k = Chain { s: 0, rm };
    let z = k.add(a, c);
    if z.c == C::NaN {
        return Some((single(z), k.s));
    }
    if z.c == C::Inf {
        // Starting with the small ones may stay in range.
        k.s = 0;
        let (big, small) = if crate::cmp_mag(a, c) == Ordering::Greater { (a, c) } else { (c, a) };
        let z = k.add(cc, aa);
        let z = k.add(z, small);
        let z = k.add(z, big);
        if infinite_or_nan(z) {
            return Some((single(z), k.s));
        }
        let zz = k.add(aa, cc);
        let r = k.sub(big, z);
        let r = k.add(r, small);
        let r = k.add(r, zz);
        return Some((Dd { hi: z, lo: r }, k.s));
    }
    let q = k.sub(a, z);
    let zz = k.add(q, c);
    let q = k.add(q, z);
    let q = k.sub(q, a);
    let zz = k.add(zz, Fp { neg: !q.neg, ..q });
    let zz = k.add(zz, aa);
    let zz = k.add(zz, cc);
    if zz.c == C::Zero && !zz.neg {
        return Some((single(z), 0));
    }
    let hi = k.add(z, zz);
    if infinite_or_nan(hi) {
        return Some((single(hi), k.s));
    }
    let lo = k.sub(z, hi);
    let lo = k.add(lo, zz);
    Some((Dd { hi, lo }, k.s))
}

fn mul(x: Dd, y: Dd, rm: u8) -> Option<(Dd, u8)> {
    match (x.hi.c, y.hi.c) {
        (C::NaN, _) => return Some((x, 0)),
        (_, C::NaN) => return Some((y, 0)),
        // The status of this is not defined for pairs.
        (C::Zero, C::Inf) | (C::Inf, C::Zero) => return None,
        (C::Fin, C::Fin) => {}
        (C::Zero | C::Inf, _) => return Some((if y.hi.neg { neg(x) } else { x }, 0)),
        _ => return Some((if x.hi.neg { neg(y) } else { y }, 0)),
    }
    let (a, b, c, dd) = (x.hi, x.lo, y.hi, y.lo);
    let mut k = Chain { s: 0, rm };
    let t = k.mul(a, c);
    if t.c != C::Fin {
        return Some((single(t), k.s));
    }
    let tau = k.fma(a, c, Fp { neg: !t.neg, ..t });
    let v = k.mul(a, dd);
    let w = k.mul(b, c);
    let v = k.add(v, w);
    let tau = k.add(tau, v);
    let u = k.add(t, tau);
    if infinite_or_nan(u) {
        return Some((single(u), k.s));
    }
    let lo = k.sub(t, u);
    let lo = k.add(lo, tau);
    Some((Dd { hi: u, lo }, k.s))
}

fn cmp(x: Dd, y: Dd) -> Option<Ordering> {
    match d().cmp(x.hi, y.hi) {
        Some(Ordering::Equal) => d().cmp(x.lo, y.lo),
        o => o,
    }
}

fn classify(x: Dd) -> u64 {
    let d = d();
    let den = x.hi.c == C::Fin && (d.denormal(x.hi) || d.denormal(x.lo) || !canonical(x));
    let fin = matches!(x.hi.c, C::Fin | C::Zero);
    let cat = match x.hi.c {
        C::Inf => 1u64,
        C::NaN => 2,
        C::Fin => 4,
        C::Zero => 8,
    };
    let is = |y: Dd| encode(if x.hi.neg { neg(y) } else { y }) == encode(x);
    let n = x.hi.neg;
    let p = [
        n,
        x.hi.c == C::Fin && !den,
        fin,
        x.hi.c == C::Zero,
        den,
        x.hi.c == C::Inf,
        nan(x),
        d.signaling(x.hi),
        x.hi.c != C::Zero,
        x.hi.c == C::Fin,
        x.hi.c == C::Zero && !n,
        x.hi.c == C::Zero && n,
        x.hi.c == C::Inf && !n,
        x.hi.c == C::Inf && n,
        is(single(d.smallest(false))),
        is(smallest_normal()),
        is(largest()),
    ];
    p.iter().enumerate().fold(cat, |m, (i, &b)| m | (b as u64) << (4 + i))
}

fn smallest_normal() -> Dd {
    single(Fp { c: C::Fin, neg: false, e: -969 - 52, sig: 1 << 52 })
}

/// The largest double and just under half of its last place.
fn largest() -> Dd {
    let hi = d().largest(false);
    Dd { hi, lo: Fp { c: C::Fin, neg: false, e: hi.e - 54, sig: (1 << 53) - 2 } }
}

/// What a call on pairs gives; None where it is not defined.
pub fn eval(k: &Call) -> Option<Out> {
    let (d, w) = (d(), wide());
    let (a, b, c) = (decode(k.a), decode(k.b), decode(k.c));
    let rm = if k.alt { 0 } else { k.round };
    let mut o = Out { flag: 2, ..Out::default() };
    let val = |o: &mut Out, r: (Dd, u8)| {
        o.has_val = 1;
        o.bits = encode(r.0);
        o.status = r.1;
    };
    let arity = match k.kind {
        Kind::MulAdd | Kind::OpMulAdd => 3,
        Kind::FromI | Kind::FromU | Kind::Qnan | Kind::Snan | Kind::Consts | Kind::FromStr => 0,
        Kind::RoundInt | Kind::NextUp | Kind::NextDown | Kind::ToI | Kind::ToU | Kind::ExactInv | Kind::Scalbn | Kind::Frexp => 1,
        Kind::Add | Kind::Sub | Kind::Mul | Kind::Div | Kind::CFmod | Kind::IeeeRem => 2,
        Kind::OpAdd | Kind::OpSub | Kind::OpMul | Kind::OpDiv | Kind::OpRem => 2,
        Kind::AddAssign | Kind::SubAssign | Kind::MulAssign | Kind::DivAssign | Kind::RemAssign => 2,
        _ => 0,
    };
    if [a, b, c][..arity].iter().any(|x| d.signaling(x.hi)) {
        return None;
    }
    // A pair that is none: a second part without a first, or too large beside it.
    let large = |x: Dd| x.lo.c == C::Fin && (x.lo.e + Big::from_u128(x.lo.sig).bits() > x.hi.e + 2 || crate::cmp_mag(x.lo, x.hi) != Ordering::Less);
    let odd = |x: Dd| if x.hi.c == C::Fin { infinite_or_nan(x.lo) || large(x) } else { x.lo.c != C::Zero };
    let used = match k.kind {
        Kind::Bits | Kind::Neg | Kind::Abs => 0,
        Kind::CopySign | Kind::Min | Kind::Max | Kind::Minimum | Kind::Maximum | Kind::Cmp | Kind::CmpAbs => 2,
        Kind::Classify | Kind::IsInteger | Kind::Ilogb | Kind::Convert => 1,
        _ => arity,
    };
    if [a, b, c][..used].iter().any(|&x| odd(x)) {
        return None;
    }
    let back = |r: (Fp, u8), rm: u8| {
        let (x, s) = split(r.0, rm);
        (x, r.1 | s)
    };
    // These only make numbers smaller, unless an odd operand is beyond the largest pair.
    let inside = |r: (Fp, u8)| match split(r.0, 0) {
        (_, s) if s != 0 => None,
        (x, _) => Some((x, r.1)),
    };
    let no_status = |r: (Dd, u8)| (r.0, 0);
    match k.kind {
        Kind::Add => val(&mut o, add(a, b, rm)?),
        Kind::Sub => val(&mut o, add(a, neg(b), rm)?),
        Kind::Mul => val(&mut o, mul(a, b, rm)?),
        Kind::Div => val(&mut o, back(w.div(join(a), join(b), rm), rm)),
        Kind::MulAdd => val(&mut o, back(w.mul_add(join(a), join(b), join(c), rm), rm)),
        Kind::OpAdd => val(&mut o, add(a, b, 0)?),
        Kind::OpSub => val(&mut o, add(a, neg(b), 0)?),
        Kind::OpMul => val(&mut o, mul(a, b, 0)?),
        Kind::OpDiv => val(&mut o, back(w.div(join(a), join(b), 0), 0)),
        Kind::OpMulAdd => val(&mut o, back(w.mul_add(join(a), join(b), join(c), 0), 0)),
        Kind::CFmod | Kind::OpRem => val(&mut o, inside(w.fmod(join(a), join(b)))?),
        Kind::AddAssign => val(&mut o, no_status(add(a, b, 0)?)),
        Kind::SubAssign => val(&mut o, no_status(add(a, neg(b), 0)?)),
        Kind::MulAssign => val(&mut o, no_status(mul(a, b, 0)?)),
        Kind::DivAssign => val(&mut o, no_status(back(w.div(join(a), join(b), 0), 0))),
        Kind::RemAssign => val(&mut o, no_status(inside(w.fmod(join(a), join(b)))?)),
        Kind::IeeeRem => val(&mut o, inside(w.ieee_rem(join(a), join(b)))?),
        Kind::RoundInt => val(&mut o, inside(w.round_int(join(a), rm))?),
        Kind::NextUp => {
            let n = w.next(join(a), true);
            val(&mut o, (split(n.0, 1).0, n.1))
        }
        Kind::NextDown => {
            let n = w.next(join(neg(a)), true);
            let (r, s) = (split(n.0, 1).0, n.1);
            val(&mut o, (neg(r), s))
        }
        Kind::Neg => val(&mut o, (neg(a), 0)),
        Kind::Abs => val(&mut o, (if a.hi.neg { neg(a) } else { a }, 0)),
        Kind::CopySign => val(&mut o, (if a.hi.neg != b.hi.neg { neg(a) } else { a }, 0)),
        Kind::Min | Kind::Max => {
            let lt = if k.kind == Kind::Min { cmp(b, a) } else { cmp(a, b) } == Some(Ordering::Less);
            val(&mut o, (if nan(a) || !nan(b) && lt { b } else { a }, 0));
        }
        Kind::Minimum | Kind::Maximum => {
            let min = k.kind == Kind::Minimum;
            let lt = if min { cmp(b, a) } else { cmp(a, b) } == Some(Ordering::Less);
            let r = if nan(a) {
                a
            } else if nan(b) {
                b
            } else if a.hi.c == C::Zero && b.hi.c == C::Zero {
                if a.hi.neg == min || a.hi.neg == b.hi.neg {
                    a
                } else {
                    b
                }
            } else if lt {
                b
            } else {
                a
            };
            val(&mut o, (r, 0));
        }
        Kind::Cmp => {
            let r = cmp(a, b);
            let (lt, gt) = (r == Some(Ordering::Less), r == Some(Ordering::Greater));
            let eq = r == Some(Ordering::Equal);
            o.aux = ord_code(r) | eq as u64 * 4 | lt as u64 * 8 | (lt || eq) as u64 * 16 | gt as u64 * 32 | (gt || eq) as u64 * 64 | (encode(a) == encode(b)) as u64 * 128;
        }
        Kind::CmpAbs => {
            if a.hi.c == C::Fin && b.hi.c == C::Fin {
                if !canonical(a) || !canonical(b) {
                    return None;
                }
                let (x, y) = (exact(a), exact(b));
                let e = x.2.min(y.2);
                o.aux = ord_code(Some(x.1.shl(x.2 - e).cmp(&y.1.shl(y.2 - e))));
            }
        }
        Kind::Classify => o.aux = classify(a),
        Kind::IsInteger => {
            let int = |x: Fp| match x.c {
                C::Zero => true,
                C::Fin => !d.to_int(x, 3).1,
                _ => false,
            };
            o.aux = (int(a.hi) && int(a.lo)) as u64;
        }
        Kind::Bits => val(&mut o, (a, 0)),
        Kind::Convert => {
            o.has_val = 1;
            o.bits = encode(a);
        }
        Kind::ToI => {
            let (v, s, ex) = w.to_i(join(a), k.w, if k.alt { 3 } else { rm });
            o.ival = v as u128;
            o.status = s;
            o.flag = (ex && !k.alt) as u8;
        }
        Kind::ToU => {
            let (v, s, ex) = w.to_u(join(a), k.w, if k.alt { 3 } else { rm });
            o.ival = v;
            o.status = s;
            o.flag = (ex && !k.alt) as u8;
        }
        Kind::FromI => val(&mut o, back(w.from_u(k.i.unsigned_abs(), k.i < 0, rm), rm)),
        Kind::FromU => val(&mut o, back(w.from_u(k.i as u128, false, rm), rm)),
        Kind::Scalbn => {
            let n = k.i as i32 as i64;
            val(&mut o, (Dd { hi: d.scalbn(a.hi, n, rm), lo: d.scalbn(a.lo, n, rm) }, 0))
        }
        Kind::Frexp => {
            let e = match a.hi.c {
                C::Zero => 0,
                C::Fin => d.ilogb(a.hi) + 1,
                _ => d.ilogb(a.hi),
            };
            let r = if a.hi.c == C::Fin { Dd { hi: d.scalbn(a.hi, -e, rm), lo: d.scalbn(a.lo, -e, rm) } } else { a };
            o.ival = e as i128 as u128;
            val(&mut o, (r, 0));
        }
        Kind::Ilogb => o.ival = d.ilogb(a.hi) as i128 as u128,
        Kind::ExactInv => {
            if let Some(r) = w.exact_inverse(join(a)) {
                o.aux = 1;
                val(&mut o, split(r, 0));
            }
        }
        Kind::Qnan => val(&mut o, (single(d.qnan(if k.alt { None } else { Some(k.i as u128) })), 0)),
        Kind::Snan => val(&mut o, (single(d.snan(if k.alt { None } else { Some(k.i as u128) })), 0)),
        Kind::Consts => {
            let r = match k.w % 7 {
                1 => single(d.inf(false)),
                2 => single(d.qnan(None)),
                3 => single(d.smallest(false)),
                4 => smallest_normal(),
                5 => largest(),
                _ => single(d.zero(false)),
            };
            o.aux = 128 | 106 << 16 | 1023 << 32 | (-969i64 as u64 & 0xffff) << 48;
            val(&mut o, (r, 0));
        }
        Kind::FromStr => match w.parse(k.text, rm)? {
            // Payloads of texts are not defined.
            Ok((x, _)) if x.c == C::NaN && k.text.contains(|c: char| c.is_ascii_digit()) => return None,
            Ok((x, s)) if w.signaling(x) => {
                val(&mut o, (single(Fp { neg: x.neg, ..d.snan(None) }), if k.alt { 0 } else { s }));
                o.res = 1;
            }
            Ok((x, s)) => {
                let (x, more) = split(x, rm);
                val(&mut o, (x, if k.alt { 0 } else { s | more }));
                o.res = 1;
            }
            Err(()) => o.res = 2,
        },
        Kind::Display | Kind::Debug | Kind::DebugStatus => return None,
    }
    Some(o)
}

/// How far a sum or product to nearest may be off: units of 2^-104 of the magnitudes involved.
/// None: not a step this is about,
/// or one that left the range. A result that is not a normalised pair is infinitely far off.
pub fn error_units(k: &Call, got: u128) -> Option<u64> {
    let (a, b, r) = (decode(k.a), decode(k.b), decode(got));
    let rm = if k.alt || !matches!(k.kind, Kind::Add | Kind::Sub | Kind::Mul) { 0 } else { k.round };
    let fin = |x: Dd| x.hi.c == C::Fin && canonical(x);
    if rm != 0 || !fin(a) || !fin(b) || !matches!(r.hi.c, C::Fin | C::Zero) {
        return None;
    }
    let (x, y) = (exact(a), exact(b));
    let b = if matches!(k.kind, Kind::Sub | Kind::OpSub | Kind::SubAssign) { (!y.0, y.1.clone(), y.2) } else { (y.0, y.1.clone(), y.2) };
    let (want, size) = match k.kind {
        Kind::Add | Kind::Sub | Kind::OpAdd | Kind::OpSub | Kind::AddAssign | Kind::SubAssign => (exact_add((x.0, &x.1, x.2), (b.0, &b.1, b.2)), exact_add((false, &x.1, x.2), (false, &b.1, b.2))),
        Kind::Mul | Kind::OpMul | Kind::MulAssign => {
            let m = x.1.mul(&y.1);
            // Low parts that would be below the smallest double are lost.
            if x.2.max(-2000) + y.2 + m.bits() < -1022 + 110 {
                return None;
            }
            ((x.0 != y.0, m.clone(), x.2 + y.2), (false, m, x.2 + y.2))
        }
        _ => return None,
    };
    if !canonical(r) {
        return Some(u64::MAX);
    }
    let g = exact(r);
    let off = exact_add((want.0, &want.1, want.2), (!g.0, &g.1, g.2));
    // ceil(|off| * 2^104 / size)
    let e = off.2.min(size.2);
    let (n, m) = (off.1.shl(off.2 - e + 104), size.1.shl(size.2 - e));
    let (q, rest) = n.divrem(&m);
    if q.bits() > 60 {
        return Some(u64::MAX);
    }
    Some(q.to_u128() as u64 + !rest.is_zero() as u64)
}
