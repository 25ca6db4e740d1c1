//! Reference machine: exact arithmetic on unlimited integers followed by one rounding per step,
//! with the library's documented conventions for status bits and NaNs. Written from IEEE 754 and
//! the library's documentation; shares no code with it.
pub mod big;
pub mod dd;
use big::Big;
use shim::{Call, Kind, Out};
use std::cmp::Ordering;

pub const INVALID: u8 = 1;
pub const DIV0: u8 = 2;
pub const OVERFLOW: u8 = 4;
pub const UNDERFLOW: u8 = 8;
pub const INEXACT: u8 = 16;

#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub struct Fmt {
    pub bits: u32,
    pub p: i64,
    pub emin: i64,
    pub emax: i64,
    pub nan_only: bool,
    pub x87: bool,
}

pub fn fmt(f: u8) -> Fmt {
    let m = |bits, p, emax: i64| Fmt { bits, p, emin: 1 - emax, emax, nan_only: false, x87: false };
    match f {
        0 => m(16, 11, 15),
        1 => m(32, 24, 127),
        2 => m(64, 53, 1023),
        3 => m(128, 113, 16383),
        4 => m(16, 8, 127),
        5 => m(8, 3, 15),
        6 => Fmt { bits: 8, p: 4, emin: -6, emax: 8, nan_only: true, x87: false },
        7 => Fmt { x87: true, ..m(80, 64, 16383) },
        _ => panic!("no reference for this format"),
    }
}

#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum C {
    Zero,
    Inf,
    NaN,
    Fin,
}

/// Finite: value = sig * 2^e with e the exponent of the last place. NaN: sig holds the payload
/// field (x87: including the explicit integer bit).
#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub struct Fp {
    pub c: C,
    pub neg: bool,
    pub e: i64,
    pub sig: u128,
}

fn low(n: i64) -> u128 {
    if n >= 128 {
        !0
    } else {
        (1u128 << n) - 1
    }
}

impl Fmt {
    pub fn zero(&self, neg: bool) -> Fp {
        Fp { c: C::Zero, neg, e: 0, sig: 0 }
    }
    pub fn qbit(&self) -> u128 {
        if self.x87 {
            3 << 62
        } else if self.nan_only {
            0
        } else {
            1 << (self.p - 2)
        }
    }
    pub fn payload_mask(&self) -> u128 {
        if self.nan_only {
            0
        } else {
            low(self.p - 1)
        }
    }
    pub fn qnan(&self, payload: Option<u128>) -> Fp {
        let base = if self.nan_only { low(self.p - 1) } else { 0 };
        Fp { c: C::NaN, neg: false, e: 0, sig: base | self.qbit() | payload.unwrap_or(0) & self.payload_mask() }
    }
    pub fn snan(&self, payload: Option<u128>) -> Fp {
        let mut r = self.qnan(payload);
        let q = self.qbit() & self.payload_mask();
        r.sig &= !q;
        if r.sig & self.payload_mask() == 0 {
            r.sig |= q >> 1;
        }
        r
    }
    pub fn inf(&self, neg: bool) -> Fp {
        if self.nan_only {
            Fp { neg, ..self.qnan(None) }
        } else {
            Fp { c: C::Inf, neg, e: 0, sig: 0 }
        }
    }
    pub fn largest(&self, neg: bool) -> Fp {
        Fp { c: C::Fin, neg, e: self.emax - self.p + 1, sig: low(self.p) & if self.nan_only { !1 } else { !0 } }
    }
    pub fn smallest(&self, neg: bool) -> Fp {
        Fp { c: C::Fin, neg, e: self.emin - self.p + 1, sig: 1 }
    }
    pub fn smallest_normal(&self, neg: bool) -> Fp {
        Fp { c: C::Fin, neg, e: self.emin - self.p + 1, sig: 1 << (self.p - 1) }
    }
    pub fn decode(&self, bits: u128) -> Fp {
        let neg = bits >> (self.bits - 1) & 1 == 1;
        if self.x87 {
            let e = (bits >> 64 & 0x7fff) as i64;
            let sig = bits as u64 as u128;
            let int = sig >> 63 == 1;
            if e == 0x7fff {
                if sig == 1 << 63 {
                    return self.inf(neg);
                }
                return Fp { c: C::NaN, neg, e: 0, sig };
            }
            if e == 0 && sig == 0 {
                return self.zero(neg);
            }
            if e != 0 && !int {
                return Fp { c: C::NaN, neg, e: 0, sig };
            }
            return Fp { c: C::Fin, neg, e: self.emin - 63 + (e - 1).max(0), sig };
        }
        let ebits = self.bits as i64 - self.p;
        let frac = bits & low(self.p - 1);
        let e = (bits >> (self.p - 1) & low(ebits)) as i64;
        if e == low(ebits) as i64 {
            if self.nan_only {
                if frac == low(self.p - 1) {
                    return Fp { c: C::NaN, neg, e: 0, sig: frac };
                }
            } else if frac == 0 {
                return self.inf(neg);
            } else {
                return Fp { c: C::NaN, neg, e: 0, sig: frac };
            }
        }
        if e == 0 {
            if frac == 0 {
                return self.zero(neg);
            }
            return Fp { c: C::Fin, neg, e: self.emin - self.p + 1, sig: frac };
        }
        Fp { c: C::Fin, neg, e: self.emin - self.p + e, sig: frac | 1 << (self.p - 1) }
    }
    pub fn encode(&self, x: Fp) -> u128 {
        let s = (x.neg as u128) << (self.bits - 1);
        let ebits = self.bits as i64 - self.p - self.x87 as i64;
        let fbits = self.p - 1 + self.x87 as i64;
        let (e, f) = match x.c {
            C::Zero => (0, 0),
            C::Inf => (low(ebits), if self.x87 { 1 << 63 } else { 0 }),
            C::NaN => (low(ebits), x.sig),
            C::Fin => {
                let normal = x.sig >> (self.p - 1) & 1 == 1;
                let e = if normal { x.e - (self.emin - self.p) } else { 0 };
                (e as u128, if self.x87 { x.sig } else { x.sig & low(self.p - 1) })
            }
        };
        s | e << fbits | f
    }
    pub fn signaling(&self, x: Fp) -> bool {
        x.c == C::NaN && x.sig & self.qbit() != self.qbit()
    }
    pub fn denormal(&self, x: Fp) -> bool {
        x.c == C::Fin && x.sig >> (self.p - 1) == 0
    }
    fn quiet(&self, mut x: Fp) -> (Fp, u8) {
        if self.signaling(x) {
            x.sig |= if self.x87 { 1 << 62 } else { self.qbit() };
            (x, INVALID)
        } else {
            (x, 0)
        }
    }
    fn nan2(&self, a: Fp, b: Fp) -> Option<(Fp, u8)> {
        if a.c != C::NaN && b.c != C::NaN {
            return None;
        }
        let (r, mut s) = self.quiet(if a.c == C::NaN { a } else { b });
        if self.signaling(a) || self.signaling(b) {
            s |= INVALID;
        }
        Some((r, s))
    }

    /// Rounds (-1)^neg * (m + something in (0,1) if sticky) * 2^e.
    pub fn round(&self, neg: bool, m: &Big, e: i64, sticky: bool, rm: u8) -> (Fp, u8) {
        if m.is_zero() && !sticky {
            return (self.zero(neg), 0);
        }
        let top = if m.is_zero() { e } else { e + m.bits() - 1 };
        let mut q = top.max(self.emin) - (self.p - 1);
        let sh = q - e;
        let (mut keep, half, rest);
        if sh > 0 {
            keep = m.shr(sh);
            half = m.bit(sh - 1);
            rest = m.any_below(sh - 1) || sticky;
        } else {
            assert!(!sticky);
            keep = m.shl(-sh);
            half = false;
            rest = false;
        }
        let inexact = half || rest;
        if !inexact && keep.is_zero() {
            return (self.zero(neg), 0);
        }
        let up = inexact
            && match rm {
                0 => half && (rest || keep.bit(0)),
                1 => !neg,
                2 => neg,
                3 => false,
                _ => half,
            };
        if up {
            keep = keep.add(&Big::from_u128(1));
            if keep.bits() > self.p {
                keep = keep.shr(1);
                q += 1;
            }
        }
        if keep.is_zero() {
            return (self.zero(neg), UNDERFLOW | INEXACT);
        }
        let sig = keep.to_u128();
        let emax_q = self.emax - self.p + 1;
        if q > emax_q || self.nan_only && q == emax_q && sig == low(self.p) {
            let to_inf = match rm {
                0 | 4 => true,
                1 => !neg,
                2 => neg,
                _ => false,
            };
            return if to_inf { (self.inf(neg), OVERFLOW | INEXACT) } else { (self.largest(neg), INEXACT) };
        }
        let r = Fp { c: C::Fin, neg, e: q, sig };
        let mut s = 0;
        if inexact {
            s |= INEXACT;
            if self.denormal(r) {
                s |= UNDERFLOW;
            }
        }
        (r, s)
    }

    pub fn add(&self, a: Fp, b: Fp, rm: u8) -> (Fp, u8) {
        if let Some(r) = self.nan2(a, b) {
            return r;
        }
        match (a.c, b.c) {
            (C::Inf, C::Inf) => {
                if a.neg != b.neg {
                    (self.qnan(None), INVALID)
                } else {
                    (a, 0)
                }
            }
            (C::Inf, _) => (a, 0),
            (_, C::Inf) => (b, 0),
            (C::Zero, C::Zero) => (self.zero(if a.neg == b.neg { a.neg } else { rm == 2 }), 0),
            (C::Zero, _) => (b, 0),
            (_, C::Zero) => (a, 0),
            _ => {
                let (n, m, e) = exact_add((a.neg, &big(a), a.e), (b.neg, &big(b), b.e));
                if m.is_zero() {
                    return (self.zero(rm == 2), 0);
                }
                self.round(n, &m, e, false, rm)
            }
        }
    }
    pub fn sub(&self, a: Fp, b: Fp, rm: u8) -> (Fp, u8) {
        if let Some(r) = self.nan2(a, b) {
            return r;
        }
        self.add(a, Fp { neg: !b.neg, ..b }, rm)
    }
    pub fn mul(&self, a: Fp, b: Fp, rm: u8) -> (Fp, u8) {
        if let Some(r) = self.nan2(a, b) {
            return r;
        }
        let neg = a.neg != b.neg;
        match (a.c, b.c) {
            (C::Zero, C::Inf) | (C::Inf, C::Zero) => (self.qnan(None), INVALID),
            (C::Inf, _) | (_, C::Inf) => (self.inf(neg), 0),
            (C::Zero, _) | (_, C::Zero) => (self.zero(neg), 0),
            _ => self.round(neg, &big(a).mul(&big(b)), a.e + b.e, false, rm),
        }
    }
    pub fn div(&self, a: Fp, b: Fp, rm: u8) -> (Fp, u8) {
        if let Some(r) = self.nan2(a, b) {
            return r;
        }
        let neg = a.neg != b.neg;
        match (a.c, b.c) {
            (C::Inf, C::Inf) | (C::Zero, C::Zero) => (self.qnan(None), INVALID),
            (C::Inf, _) => (self.inf(neg), 0),
            (C::Zero, _) | (_, C::Inf) => (self.zero(neg), 0),
            (_, C::Zero) => (self.inf(neg), DIV0),
            _ => self.ratio(neg, &big(a), &big(b), a.e - b.e, rm),
        }
    }
    /// n / d * 2^e rounded.
    pub fn ratio(&self, neg: bool, n: &Big, d: &Big, e: i64, rm: u8) -> (Fp, u8) {
        let k = (self.p + 4 + d.bits() - n.bits()).max(0);
        let (q, r) = n.shl(k).divrem(d);
        self.round(neg, &q.shl(2), e - k - 2, !r.is_zero(), rm)
    }
    pub fn mul_add(&self, a: Fp, b: Fp, c: Fp, rm: u8) -> (Fp, u8) {
        if a.c == C::Fin && b.c == C::Fin {
            if c.c == C::NaN || c.c == C::Inf {
                return self.add(a, c, rm);
            }
            let neg = a.neg != b.neg;
            let m = big(a).mul(&big(b));
            if c.c == C::Zero {
                return self.round(neg, &m, a.e + b.e, false, rm);
            }
            let (n, m, e) = exact_add((neg, &m, a.e + b.e), (c.neg, &big(c), c.e));
            if m.is_zero() {
                return (self.zero(rm == 2), 0);
            }
            return self.round(n, &m, e, false, rm);
        }
        let (r, s) = self.mul(a, b, rm);
        if s != 0 {
            return (r, s);
        }
        self.add(r, c, rm)
    }
    pub fn fmod(&self, a: Fp, b: Fp) -> (Fp, u8) {
        if let Some(r) = self.nan2(a, b) {
            return r;
        }
        match (a.c, b.c) {
            (C::Inf, _) | (_, C::Zero) => (self.qnan(None), INVALID),
            (C::Zero, _) | (_, C::Inf) => (a, 0),
            _ => {
                let e = a.e.min(b.e);
                let (_, r) = big(a).shl(a.e - e).divrem(&big(b).shl(b.e - e));
                self.round(a.neg, &r, e, false, 0)
            }
        }
    }
    pub fn ieee_rem(&self, a: Fp, b: Fp) -> (Fp, u8) {
        if let Some(r) = self.nan2(a, b) {
            return r;
        }
        match (a.c, b.c) {
            (C::Inf, _) | (_, C::Zero) => (self.qnan(None), INVALID),
            (C::Zero, _) | (_, C::Inf) => (a, 0),
            _ => {
                let e = a.e.min(b.e);
                let d = big(b).shl(b.e - e);
                let (q, r) = big(a).shl(a.e - e).divrem(&d);
                let up = match r.shl(1).cmp(&d) {
                    Ordering::Less => false,
                    Ordering::Equal => q.bit(0),
                    Ordering::Greater => true,
                };
                let (m, neg) = if up { (d.sub(&r), !a.neg) } else { (r, a.neg) };
                if m.is_zero() {
                    return (self.zero(a.neg), 0);
                }
                self.round(neg, &m, e, false, 0)
            }
        }
    }
    /// Nearest integer (magnitude) under the rounding mode, and whether that lost something.
    fn to_int(&self, a: Fp, rm: u8) -> (Big, bool) {
        if a.e >= 0 {
            return (big(a).shl(a.e), false);
        }
        let m = big(a);
        let k = m.shr(-a.e);
        let half = m.bit(-a.e - 1);
        let rest = m.any_below(-a.e - 1);
        let up = (half || rest)
            && match rm {
                0 => half && (rest || k.bit(0)),
                1 => !a.neg,
                2 => a.neg,
                3 => false,
                _ => half,
            };
        (if up { k.add(&Big::from_u128(1)) } else { k }, half || rest)
    }
    pub fn round_int(&self, a: Fp, rm: u8) -> (Fp, u8) {
        match a.c {
            C::NaN => self.quiet(a),
            C::Inf | C::Zero => (a, 0),
            C::Fin => {
                let (m, lost) = self.to_int(a, rm);
                let (r, _) = self.round(a.neg, &m, 0, false, 0);
                (r, if lost { INEXACT } else { 0 })
            }
        }
    }
    pub fn next(&self, a: Fp, up: bool) -> (Fp, u8) {
        match a.c {
            C::NaN => {
                if self.signaling(a) {
                    (Fp { neg: a.neg, ..self.qnan(None) }, INVALID)
                } else {
                    (a, 0)
                }
            }
            C::Inf => (if a.neg == up { self.largest(a.neg) } else { a }, 0),
            C::Zero => (self.smallest(!up), 0),
            C::Fin => {
                // Ordered walk on magnitudes.
                let away = a.neg != up;
                let mut r = a;
                if away {
                    if a == self.largest(a.neg) {
                        return (self.inf(a.neg), 0);
                    }
                    r.sig += 1;
                    if r.sig >> self.p != 0 {
                        r.sig >>= 1;
                        r.e += 1;
                    }
                } else {
                    if a.sig == 1 {
                        return (self.zero(a.neg), 0);
                    }
                    if a.sig == 1 << (self.p - 1) && a.e > self.emin - self.p + 1 {
                        r.sig = low(self.p);
                        r.e -= 1;
                    } else {
                        r.sig -= 1;
                    }
                }
                (r, 0)
            }
        }
    }
    pub fn cmp(&self, a: Fp, b: Fp) -> Option<Ordering> {
        if a.c == C::NaN || b.c == C::NaN {
            return None;
        }
        let key = |x: Fp| -> (i32, Option<Fp>) {
            match x.c {
                C::Zero => (0, None),
                C::Inf => (if x.neg { -2 } else { 2 }, None),
                _ => (if x.neg { -1 } else { 1 }, Some(x)),
            }
        };
        let (ka, kb) = (key(a), key(b));
        Some(ka.0.cmp(&kb.0).then_with(|| match (ka.1, kb.1) {
            (Some(x), Some(y)) => {
                let o = cmp_mag(x, y);
                if x.neg {
                    o.reverse()
                } else {
                    o
                }
            }
            _ => Ordering::Equal,
        }))
    }
    pub fn scalbn(&self, a: Fp, n: i64, rm: u8) -> Fp {
        match a.c {
            C::NaN => self.quiet(a).0,
            C::Fin => self.round(a.neg, &big(a), a.e + n.clamp(-100_000, 100_000), false, rm).0,
            _ => a,
        }
    }
    pub fn ilogb(&self, a: Fp) -> i64 {
        match a.c {
            C::NaN => i32::MIN as i64,
            C::Zero => i32::MIN as i64 + 1,
            C::Inf => i32::MAX as i64,
            C::Fin => a.e + big(a).bits() - 1,
        }
    }
    pub fn from_u(&self, x: u128, neg: bool, rm: u8) -> (Fp, u8) {
        self.round(neg, &Big::from_u128(x), 0, false, rm)
    }
    /// (value, status, exact)
    pub fn to_u(&self, a: Fp, w: u32, rm: u8) -> (u128, u8, bool) {
        let max = low(w as i64);
        let over = if a.neg { 0 } else { max };
        match a.c {
            C::NaN => (0, INVALID, false),
            C::Inf => (over, INVALID, false),
            C::Zero => (0, 0, !a.neg),
            C::Fin => {
                let (m, lost) = self.to_int(a, rm);
                if m.bits() > 128 || m.to_u128() > over {
                    return (over, INVALID, false);
                }
                (m.to_u128(), if lost { INEXACT } else { 0 }, !lost)
            }
        }
    }
    pub fn to_i(&self, a: Fp, w: u32, rm: u8) -> (i128, u8, bool) {
        let max = low(w as i64 - 1) as i128;
        let min = -max - 1;
        match a.c {
            C::NaN => (0, INVALID, false),
            C::Inf => (if a.neg { min } else { max }, INVALID, false),
            C::Zero => (0, 0, !a.neg),
            C::Fin => {
                let (m, lost) = self.to_int(a, rm);
                let fits = m.bits() <= 128 && if a.neg { m.to_u128() <= min.unsigned_abs() } else { m.to_u128() <= max as u128 };
                if !fits {
                    return (if a.neg { min } else { max }, INVALID, false);
                }
                let v = m.to_u128();
                (if a.neg { (v as i128).wrapping_neg() } else { v as i128 }, if lost { INEXACT } else { 0 }, !lost)
            }
        }
    }
    pub fn exact_inverse(&self, a: Fp) -> Option<Fp> {
        if a.c != C::Fin || a.sig != 1 << (self.p - 1) {
            return None;
        }
        let (r, s) = self.ratio(a.neg, &Big::from_u128(1), &big(a), -a.e, 0);
        if s != 0 || r.c != C::Fin || self.denormal(r) {
            None
        } else {
            Some(r)
        }
    }
    fn same(&self, a: Fp, b: Fp) -> bool {
        a.c == b.c && a.neg == b.neg && (matches!(a.c, C::Zero | C::Inf) || a.sig == b.sig && (a.c == C::NaN || a.e == b.e))
    }
    pub fn classify(&self, a: Fp) -> u64 {
        let den = self.denormal(a);
        let fin = matches!(a.c, C::Fin | C::Zero);
        let cat = match a.c {
            C::Inf => 1u64,
            C::NaN => 2,
            C::Fin => 4,
            C::Zero => 8,
        };
        let p = [
            a.neg,
            a.c == C::Fin && !den,
            fin,
            a.c == C::Zero,
            den,
            a.c == C::Inf,
            a.c == C::NaN,
            self.signaling(a),
            a.c != C::Zero,
            a.c == C::Fin,
            a.c == C::Zero && !a.neg,
            a.c == C::Zero && a.neg,
            a.c == C::Inf && !a.neg,
            a.c == C::Inf && a.neg,
            self.same(a, self.smallest(a.neg)),
            self.same(a, self.smallest_normal(a.neg)),
            self.same(a, self.largest(a.neg)),
        ];
        p.iter().enumerate().fold(cat, |m, (i, &b)| m | (b as u64) << (4 + i))
    }
    /// (result, status, loses_info)
    pub fn convert(&self, a: Fp, t: &Fmt, rm: u8) -> (Fp, u8, bool) {
        match a.c {
            C::NaN => {
                let pseudo = self.x87 && !t.x87 && self.signaling(a);
                let (x, s) = self.quiet(a);
                let sh = t.p - self.p;
                let mut sig = x.sig;
                let mut lost = false;
                if sh < 0 && self.payload_mask() != 0 {
                    lost = sig & low(-sh) != 0;
                    sig >>= -sh;
                } else if sh > 0 {
                    sig <<= sh;
                }
                let r = Fp { neg: a.neg, ..t.qnan(Some(sig)) };
                (r, s, lost || pseudo || self.payload_mask() != 0 && t.payload_mask() == 0)
            }
            C::Inf => {
                let s = if t.nan_only { INEXACT } else { 0 };
                (t.inf(a.neg), s, s != 0)
            }
            C::Zero => (t.zero(a.neg), 0, false),
            C::Fin => {
                let (r, s) = t.round(a.neg, &big(a), a.e, false, rm);
                (r, s, s != 0)
            }
        }
    }
    /// Text in the documented grammar. None: not modelled. Some(Err): rejected.
    pub fn parse(&self, text: &str, rm: u8) -> Option<Result<(Fp, u8), ()>> {
        if text.is_empty() {
            return Some(Err(()));
        }
        let (neg, s) = match text.strip_prefix('-') {
            Some(s) => (true, s),
            None => (false, text),
        };
        let signed = |x: Fp| Fp { neg, ..x };
        let ok = |x: Fp| Some(Ok((signed(x), 0)));
        match text {
            "inf" | "INFINITY" | "+Inf" | "-inf" | "-INFINITY" | "-Inf" => return ok(self.inf(false)),
            _ => {}
        }
        let low_s = s.trim_start_matches(['s', 'S']);
        if let Some(rest) = low_s.strip_prefix("nan").or(low_s.strip_prefix("NaN")) {
            let sn = low_s.len() + 1 == s.len();
            if low_s.len() != s.len() && !sn {
                return None;
            }
            let body = match rest.strip_prefix('(').and_then(|r| r.strip_suffix(')')) {
                Some("") => return None,
                Some(b) => b,
                None => rest,
            };
            let payload = if body.is_empty() {
                None
            } else {
                let (radix, d) = if let Some(h) = body.strip_prefix("0x").or(body.strip_prefix("0X")) {
                    (16, h)
                } else if body.len() > 1 && body.starts_with('0') {
                    (8, &body[1..])
                } else {
                    (10, body)
                };
                if d.is_empty() || !d.chars().all(|c| c.is_digit(radix)) {
                    return None;
                }
                match u128::from_str_radix(d, radix) {
                    Ok(v) => Some(v),
                    Err(_) => return None,
                }
            };
            return ok(if sn { self.snan(payload) } else { self.qnan(payload) });
        }
        let s = if neg { s } else { s.strip_prefix('+').unwrap_or(s) };
        let (hex, s) = match s.strip_prefix("0x").or(s.strip_prefix("0X")) {
            Some(h) => (true, h),
            None => (false, s),
        };
        let radix = if hex { 16 } else { 10 };
        let ec: &[char] = if hex { &['p', 'P'] } else { &['e', 'E'] };
        let (mant, exp) = match s.find(ec) {
            Some(i) => (&s[..i], Some(&s[i + 1..])),
            None => (s, None),
        };
        let mut any = false;
        let mut dot = false;
        let mut m = Big::default();
        let mut scale = 0i64;
        let mut pend = 0u32;
        for c in mant.chars() {
            if c == '.' {
                if dot {
                    return Some(Err(()));
                }
                dot = true;
            } else if let Some(d) = c.to_digit(radix) {
                any = true;
                if dot {
                    scale -= 1;
                }
                if d == 0 {
                    pend += 1;
                    continue;
                }
                while pend > 0 {
                    let k = pend.min(6);
                    m = m.mul_small(radix.pow(k), 0);
                    pend -= k;
                }
                m = m.mul_small(radix, d);
            } else {
                return Some(Err(()));
            }
        }
        scale += pend as i64;
        if !any {
            return Some(Err(()));
        }
        let mut x = 0i64;
        match exp {
            None => {
                if hex {
                    return Some(Err(()));
                }
            }
            Some(e) => {
                let (n, d) = match e.strip_prefix('-') {
                    Some(d) => (true, d),
                    None => (false, e.strip_prefix('+').unwrap_or(e)),
                };
                if d.is_empty() {
                    if hex {
                        return Some(Err(()));
                    }
                    // "Treat no exponent as 0 to match binutils"
                }
                for c in d.chars() {
                    match c.to_digit(10) {
                        Some(v) => x = (x * 10 + v as i64).min(100_000_000),
                        None => return Some(Err(())),
                    }
                }
                if n {
                    x = -x;
                }
            }
        }
        if m.is_zero() {
            return ok(self.zero(false));
        }
        if hex {
            return Some(Ok(self.round(neg, &m, x + 4 * scale, false, rm)));
        }
        x += scale;
        // Far out of range either way: any value beyond is rounded alike.
        let digits = m.bits() * 30103 / 100000 + 1;
        if x + digits > 12_000 {
            return Some(Ok(self.round(neg, &Big::from_u128(1), 100_000, false, rm)));
        }
        if x + digits < -12_000 {
            return Some(Ok(self.round(neg, &Big::from_u128(1), -100_000, false, rm)));
        }
        if x >= 0 {
            Some(Ok(self.round(neg, &m.mul(&Big::pow(5, x as u32)), x, false, rm)))
        } else {
            Some(Ok(self.ratio(neg, &m, &Big::pow(5, -x as u32), x, rm)))
        }
    }
}

fn big(x: Fp) -> Big {
    Big::from_u128(x.sig)
}

pub fn cmp_mag(x: Fp, y: Fp) -> Ordering {
    let e = x.e.min(y.e);
    big(x).shl(x.e - e).cmp(&big(y).shl(y.e - e))
}

fn exact_add(a: (bool, &Big, i64), b: (bool, &Big, i64)) -> (bool, Big, i64) {
    let e = a.2.min(b.2);
    let (x, y) = (a.1.shl(a.2 - e), b.1.shl(b.2 - e));
    if a.0 == b.0 {
        return (a.0, x.add(&y), e);
    }
    match x.cmp(&y) {
        Ordering::Less => (b.0, y.sub(&x), e),
        _ => (a.0, x.sub(&y), e),
    }
}

fn ord_code(o: Option<Ordering>) -> u64 {
    match o {
        None => 0,
        Some(Ordering::Less) => 1,
        Some(Ordering::Equal) => 2,
        Some(Ordering::Greater) => 3,
    }
}

/// As `eval`, for pairs of doubles too.
pub fn eval_any(k: &Call) -> Option<Out> {
    if k.f == 8 {
        dd::eval(k)
    } else {
        eval(k)
    }
}

/// The expected outcome of a call; None where the reference machine has no opinion.
/// A rejected text has `res == 2` and an unspecified `aux`.
pub fn eval(k: &Call) -> Option<Out> {
    if k.f >= 8 || (k.kind == Kind::Convert && k.g >= 8) {
        return None;
    }
    let f = fmt(k.f);
    let (a, b, c) = (f.decode(k.a), f.decode(k.b), f.decode(k.c));
    // The sibling entry points round to nearest even (to integers: toward zero, below).
    let rm = if k.alt { 0 } else { k.round };
    let mut o = Out { flag: 2, ..Out::default() };
    let val = |o: &mut Out, r: (Fp, u8)| {
        o.has_val = 1;
        o.bits = f.encode(r.0);
        o.status = r.1;
    };
    let neg = |x: Fp| Fp { neg: !x.neg, ..x };
    match k.kind {
        Kind::Add => val(&mut o, f.add(a, b, rm)),
        Kind::Sub => val(&mut o, f.sub(a, b, rm)),
        Kind::Mul => val(&mut o, f.mul(a, b, rm)),
        Kind::Div => val(&mut o, f.div(a, b, rm)),
        Kind::MulAdd => val(&mut o, f.mul_add(a, b, c, rm)),
        Kind::OpAdd => val(&mut o, f.add(a, b, 0)),
        Kind::OpSub => val(&mut o, f.sub(a, b, 0)),
        Kind::OpMul => val(&mut o, f.mul(a, b, 0)),
        Kind::OpDiv => val(&mut o, f.div(a, b, 0)),
        Kind::OpMulAdd => val(&mut o, f.mul_add(a, b, c, 0)),
        Kind::OpRem | Kind::CFmod => val(&mut o, f.fmod(a, b)),
        Kind::AddAssign => val(&mut o, (f.add(a, b, 0).0, 0)),
        Kind::SubAssign => val(&mut o, (f.sub(a, b, 0).0, 0)),
        Kind::MulAssign => val(&mut o, (f.mul(a, b, 0).0, 0)),
        Kind::DivAssign => val(&mut o, (f.div(a, b, 0).0, 0)),
        Kind::RemAssign => val(&mut o, (f.fmod(a, b).0, 0)),
        Kind::IeeeRem => val(&mut o, f.ieee_rem(a, b)),
        Kind::RoundInt => val(&mut o, f.round_int(a, rm)),
        Kind::NextUp => val(&mut o, f.next(a, true)),
        Kind::NextDown => val(&mut o, f.next(a, false)),
        Kind::Neg => val(&mut o, (neg(a), 0)),
        Kind::Abs => val(&mut o, (Fp { neg: false, ..a }, 0)),
        Kind::CopySign => val(&mut o, (Fp { neg: b.neg, ..a }, 0)),
        Kind::Min | Kind::Max => {
            let r = if a.c == C::NaN {
                b
            } else if b.c == C::NaN {
                a
            } else {
                let lt = if k.kind == Kind::Min { f.cmp(b, a) } else { f.cmp(a, b) } == Some(Ordering::Less);
                if lt {
                    b
                } else {
                    a
                }
            };
            val(&mut o, (r, 0))
        }
        Kind::Minimum | Kind::Maximum => {
            let min = k.kind == Kind::Minimum;
            let r = if a.c == C::NaN {
                a
            } else if b.c == C::NaN {
                b
            } else if a.c == C::Zero && b.c == C::Zero {
                if (a.neg == min) || a.neg == b.neg {
                    a
                } else {
                    b
                }
            } else if (if min { f.cmp(b, a) } else { f.cmp(a, b) }) == Some(Ordering::Less) {
                b
            } else {
                a
            };
            val(&mut o, (r, 0))
        }
        Kind::Cmp => {
            let r = f.cmp(a, b);
            let lt = r == Some(Ordering::Less);
            let eq = r == Some(Ordering::Equal);
            let gt = r == Some(Ordering::Greater);
            o.aux = ord_code(r)
                | eq as u64 * 4
                | lt as u64 * 8
                | (lt || eq) as u64 * 16
                | gt as u64 * 32
                | (gt || eq) as u64 * 64
                | f.same(a, b) as u64 * 128;
        }
        Kind::CmpAbs => {
            if a.c == C::Fin && b.c == C::Fin {
                o.aux = ord_code(Some(cmp_mag(a, b)));
            }
        }
        Kind::Classify => o.aux = f.classify(a),
        Kind::IsInteger => {
            o.aux = match a.c {
                C::Zero => 1,
                C::Fin => !f.to_int(a, 3).1 as u64,
                _ => 0,
            }
        }
        Kind::Bits => val(&mut o, (a, 0)),
        Kind::ToI => {
            let (v, s, ex) = f.to_i(a, k.w, if k.alt { 3 } else { rm });
            o.ival = v as u128;
            o.status = s;
            o.flag = (ex && !k.alt) as u8;
        }
        Kind::ToU => {
            let (v, s, ex) = f.to_u(a, k.w, if k.alt { 3 } else { rm });
            o.ival = v;
            o.status = s;
            o.flag = (ex && !k.alt) as u8;
        }
        Kind::FromI => val(&mut o, f.from_u(k.i.unsigned_abs(), k.i < 0, rm)),
        Kind::FromU => val(&mut o, f.from_u(k.i as u128, false, rm)),
        Kind::Convert => {
            let t = fmt(k.g);
            let (r, s, l) = f.convert(a, &t, rm);
            o.has_val = 1;
            o.bits = t.encode(r);
            o.status = s;
            o.flag = l as u8;
        }
        Kind::Scalbn => val(&mut o, (f.scalbn(a, k.i as i32 as i64, rm), 0)),
        Kind::Frexp => {
            let mut e = f.ilogb(a);
            let r = match a.c {
                C::NaN => f.quiet(a).0,
                C::Inf => a,
                C::Zero => {
                    e = 0;
                    a
                }
                C::Fin => {
                    e += 1;
                    f.scalbn(a, -e, rm)
                }
            };
            o.ival = e as i128 as u128;
            val(&mut o, (r, 0));
        }
        Kind::Ilogb => o.ival = f.ilogb(a) as i128 as u128,
        Kind::ExactInv => {
            if let Some(r) = f.exact_inverse(a) {
                o.aux = 1;
                val(&mut o, (r, 0));
            }
        }
        Kind::Qnan => val(&mut o, (f.qnan(if k.alt { None } else { Some(k.i as u128) }), 0)),
        Kind::Snan => val(&mut o, (f.snan(if k.alt { None } else { Some(k.i as u128) }), 0)),
        Kind::Consts => {
            let r = match k.w % 7 {
                0 => f.zero(false),
                1 => f.inf(false),
                2 => f.qnan(None),
                3 => f.smallest(false),
                4 => f.smallest_normal(false),
                5 => f.largest(false),
                _ => f.zero(false),
            };
            o.aux = f.bits as u64 | (f.p as u64) << 16 | (f.emax as u64 & 0xffff) << 32 | (f.emin as u64 & 0xffff) << 48;
            val(&mut o, (r, 0));
        }
        Kind::FromStr => match f.parse(k.text, rm)? {
            Ok(r) => {
                let r = if k.alt { (r.0, 0) } else { r };
                val(&mut o, r);
                o.res = 1;
            }
            Err(()) => o.res = 2,
        },
        Kind::Display | Kind::Debug | Kind::DebugStatus => return None,
    }
    Some(o)
}
