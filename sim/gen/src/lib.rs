//! Seeded generation of calls, values and texts; text form of a call (replay files).
use model::big::Big;
use model::{Fmt, Fp, C};

/// Drawn as numbers of 106 bits; turned into pairs of doubles afterwards.
const WIDE: u8 = 9;

fn mfmt(f: u8) -> Fmt {
    if f == WIDE {
        model::dd::wide()
    } else {
        model::fmt(f)
    }
}

use shim::{Call, Kind, Spec, FMT_NAMES, KINDS, KIND_NAMES};

/// SplitMix64 stream: the only source of randomness of the whole simulator.
#[derive(Clone, Debug)]
pub struct Rng(pub u64);

pub fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64, stream: u64, idx: u64) -> Rng {
        Rng(mix(mix(seed.wrapping_add(0x9e3779b97f4a7c15)) ^ mix(stream.wrapping_mul(0xd1342543de82ef95).wrapping_add(1)) ^ mix(idx.wrapping_mul(0xa0761d6478bd642f).wrapping_add(7))))
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        mix(self.0)
    }
    pub fn u128(&mut self) -> u128 {
        (self.u64() as u128) << 64 | self.u64() as u128
    }
    pub fn below(&mut self, n: u64) -> u64 {
        ((self.u64() as u128 * n as u128) >> 64) as u64
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    /// True with probability n/d.
    pub fn chance(&mut self, n: u64, d: u64) -> bool {
        self.below(d) < n
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
    /// Geometric-like gap with the given mean, at least 1.
    pub fn gap(&mut self, mean: u64) -> u64 {
        let u = (self.u64() >> 11) + 1; // 1..=2^53
        // -ln(u/2^53) * mean, by integer log2 with linear interpolation: no floating point here.
        let lz = u.leading_zeros() as u64 - 10;
        let m = (u << (lz + 10)) << 1; // fraction bits at the top
        let frac = m >> 48; // 16 bits
        let log2_x65536 = lz * 65536 + (65536 - frac) - 65536;
        1 + (log2_x65536.min(1 << 22) * mean * 45426 >> 32)
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct OwnedCall {
    pub kind: Kind,
    pub f: u8,
    pub g: u8,
    pub round: u8,
    pub a: u128,
    pub b: u128,
    pub c: u128,
    pub i: i128,
    pub w: u32,
    pub prior: bool,
    pub alt: bool,
    pub spec: Spec,
    pub text: String,
}

impl OwnedCall {
    pub fn new(kind: Kind, f: u8) -> OwnedCall {
        OwnedCall { kind, f, g: 0, round: 0, a: 0, b: 0, c: 0, i: 0, w: 0, prior: false, alt: false, spec: Spec::default(), text: String::new() }
    }
    pub fn call(&self) -> Call<'_> {
        Call { kind: self.kind, f: self.f, g: self.g, round: self.round, a: self.a, b: self.b, c: self.c, i: self.i, w: self.w, prior: self.prior, alt: self.alt, spec: self.spec, text: &self.text }
    }
    pub fn is_print(&self) -> bool {
        matches!(self.kind, Kind::Display | Kind::Debug | Kind::DebugStatus)
    }
    pub fn encode(&self) -> String {
        let mut s = format!("{} f={}", KIND_NAMES[self.kind as usize], FMT_NAMES[self.f as usize]);
        let mut put = |k: &str, v: String, d: bool| {
            if !d {
                s.push_str(&format!(" {k}={v}"));
            }
        };
        put("g", FMT_NAMES[self.g as usize].to_string(), self.g == 0);
        put("r", self.round.to_string(), self.round == 0);
        put("a", format!("{:x}", self.a), self.a == 0);
        put("b", format!("{:x}", self.b), self.b == 0);
        put("c", format!("{:x}", self.c), self.c == 0);
        put("i", self.i.to_string(), self.i == 0);
        put("w", self.w.to_string(), self.w == 0);
        put("prior", "1".into(), !self.prior);
        put("alt", "1".into(), !self.alt);
        if self.spec != Spec::default() {
            let o = |x: Option<u16>| x.map_or("-".to_string(), |v| v.to_string());
            let sp = self.spec;
            put("spec", format!("{}:{}:{}:{}:{}", o(sp.width), o(sp.prec), sp.alt as u8, sp.plus as u8, sp.fill), false);
        }
        if !self.text.is_empty() {
            put("text", esc(&self.text), false);
        }
        s
    }
    pub fn decode(line: &str) -> Option<OwnedCall> {
        let mut it = line.split(' ');
        let kn = it.next()?;
        let kind = KINDS[KIND_NAMES.iter().position(|k| *k == kn)?];
        let mut c = OwnedCall::new(kind, 0);
        let fmt = |v: &str| FMT_NAMES.iter().position(|k| *k == v).map(|x| x as u8);
        for t in it {
            let (k, v) = t.split_once('=')?;
            match k {
                "f" => c.f = fmt(v)?,
                "g" => c.g = fmt(v)?,
                "r" => c.round = v.parse().ok()?,
                "a" => c.a = u128::from_str_radix(v, 16).ok()?,
                "b" => c.b = u128::from_str_radix(v, 16).ok()?,
                "c" => c.c = u128::from_str_radix(v, 16).ok()?,
                "i" => c.i = v.parse().ok()?,
                "w" => c.w = v.parse().ok()?,
                "prior" => c.prior = v == "1",
                "alt" => c.alt = v == "1",
                "spec" => {
                    let p: Vec<&str> = v.split(':').collect();
                    if p.len() != 5 {
                        return None;
                    }
                    let o = |x: &str| if x == "-" { None } else { x.parse().ok() };
                    c.spec = Spec { width: o(p[0]), prec: o(p[1]), alt: p[2] == "1", plus: p[3] == "1", fill: p[4].parse().ok()? };
                }
                "text" => c.text = unesc(v)?,
                _ => return None,
            }
        }
        Some(c)
    }
}

pub fn esc(s: &str) -> String {
    let mut r = String::new();
    for b in s.bytes() {
        if b.is_ascii_graphic() && b != b'%' {
            r.push(b as char);
        } else {
            r.push_str(&format!("%{b:02x}"));
        }
    }
    r
}

pub fn unesc(s: &str) -> Option<String> {
    let b = s.as_bytes();
    let mut v = Vec::new();
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' {
            v.push(u8::from_str_radix(s.get(i + 1..i + 3)?, 16).ok()?);
            i += 3;
        } else {
            v.push(b[i]);
            i += 1;
        }
    }
    String::from_utf8(v).ok()
}

fn low(n: i64) -> u128 {
    if n >= 128 {
        !0
    } else {
        (1u128 << n) - 1
    }
}

pub fn width(f: u8) -> u32 {
    if f == 8 {
        128
    } else {
        mfmt(f).bits
    }
}

/// A significand pattern of n bits.
fn sig_pattern(r: &mut Rng, n: i64) -> u128 {
    let m = low(n);
    match r.below(9) {
        0 => 0,
        1 => m,
        2 => 1u128 << r.below(n as u64),
        3 => m ^ 1u128 << r.below(n as u64),
        4 => r.below(8) as u128 & m,
        5 => m - (r.below(8) as u128 & m),
        6 => m << r.below(n as u64) & m,
        7 => r.u128() & r.u128() & r.u128() & m,
        _ => r.u128() & m,
    }
}

/// A finite non-zero value of an IEEE-like format.
pub fn finite(r: &mut Rng, f: u8) -> Fp {
    let m = mfmt(f);
    let neg = r.chance(1, 2);
    let top = 1u128 << (m.p - 1);
    let e = match r.below(12) {
        0 | 1 => r.range(m.emin, m.emax),
        2 => m.emin,
        3 => (m.emin + r.range(0, 3)).min(m.emax),
        4 => (m.emax - r.range(0, 3)).max(m.emin),
        5 => r.range(-2, 2),
        6 => r.range(0, m.p + 2),
        7 => r.range(-m.p - 2, 0),
        8 => (m.emin + m.p + r.range(-3, 3)).min(m.emax),
        9 => *r.pick(&[7, 8, 15, 16, 31, 32, 63, 64, 127, 128]) - r.range(0, 1),
        _ => r.range(-12, 12),
    }
    .clamp(m.emin, m.emax);
    let q = e - m.p + 1;
    let mut sig = top | sig_pattern(r, m.p - 1);
    if r.chance(1, 9) || (e == m.emin && r.chance(1, 2)) {
        // Denormal.
        sig = sig_pattern(r, m.p - 1).max(1);
        if r.chance(1, 2) {
            sig = (sig >> r.below(m.p as u64 - 1)).max(1);
        }
        return Fp { c: C::Fin, neg, e: m.emin - m.p + 1, sig };
    }
    let x = Fp { c: C::Fin, neg, e: q, sig };
    if m.nan_only && q == m.emax - m.p + 1 && sig == low(m.p) {
        return m.largest(neg);
    }
    x
}

/// Bits of a value of format f.
pub fn value(r: &mut Rng, f: u8) -> u128 {
    if f == 8 {
        return dd_value(r);
    }
    let m = mfmt(f);
    let neg = r.chance(1, 2);
    let sgn = |x: Fp| Fp { neg, ..x };
    match r.below(40) {
        0 | 1 => m.encode(m.zero(neg)),
        2 => m.encode(m.inf(neg)),
        3 => m.encode(sgn(m.qnan(None))),
        4 => m.encode(sgn(m.qnan(Some(if r.chance(1, 2) { r.u128() } else { 1u128 << r.below(112) })))),
        5 => m.encode(sgn(m.snan(Some(if r.chance(1, 2) { r.u128() } else { 1u128 << r.below(112) })))),
        6 => m.encode(m.smallest(neg)),
        7 => m.encode(m.smallest_normal(neg)),
        8 => m.encode(m.next(m.smallest_normal(neg), neg).0),
        9 => m.encode(m.largest(neg)),
        10 => m.encode(m.next(m.largest(neg), neg).0),
        11 => m.encode(m.round(neg, &Big::from_u128(1), 0, false, 0).0),
        12 | 13 => {
            // small integers and halves
            let k = r.below(40) as u128;
            m.encode(m.round(neg, &Big::from_u128(k), -(r.below(3) as i64), false, 3).0)
        }
        14 => {
            // integers around powers of two
            let k = (1u128 << r.below(127)).wrapping_add(r.below(5) as u128).wrapping_sub(2);
            m.encode(m.round(neg, &Big::from_u128(k), 0, false, 3).0)
        }
        15 => {
            // decimal looking values
            if r.chance(1, 3) {
                return above_power_of_ten(r, f);
            }
            let far = r.chance(1, 2);
            let m10 = (m.emax * 301 / 1000).min(5000);
            let k = if far { r.range(-m10, m10) } else { r.range(-45, 45) };
            let d = if r.chance(1, 2) { 1 } else { r.below(1000) as u128 + 1 };
            let v = if k >= 0 { m.round(neg, &Big::from_u128(d).mul(&Big::pow(10, k as u32)), 0, false, 0) } else { m.ratio(neg, &Big::from_u128(d), &Big::pow(10, -k as u32), 0, 0) };
            let mut v = v.0;
            for _ in 0..r.below(4) {
                v = m.next(v, !neg).0;
            }
            m.encode(v)
        }
        16 => r.u128() & low(m.bits as i64),
        17 if m.x87 => {
            // every kind of odd encoding
            let e = *r.pick(&[0u128, 1, 0x7ffe, 0x7fff, 0x3fff]);
            let int = r.below(2) as u128;
            (neg as u128) << 79 | e << 64 | int << 63 | sig_pattern(r, 63)
        }
        _ => m.encode(finite(r, f)),
    }
}

fn dd_value(r: &mut Rng) -> u128 {
    let hi = value(r, 2);
    let m = mfmt(2);
    let h = m.decode(hi);
    let lo = match r.below(8) {
        0 | 1 => 0,
        2 => 1u128 << 63,
        3 if r.chance(1, 6) => value(r, 2),
        _ => {
            if h.c == C::Fin {
                // below half an ulp of the high part
                let d = r.range(0, 60);
                let q = h.e - 1 - d;
                let sig = sig_pattern(r, 53);
                let neg = r.chance(1, 2);
                let bits = Big::from_u128(sig).bits();
                m.encode(m.round(neg, &Big::from_u128(sig), q - bits, false, 3).0)
            } else {
                0
            }
        }
    };
    // DoubleDouble::from_bits: low 64 bits are the first component.
    hi | lo << 64
}

/// The value nearest to a power of ten, or a neighbour of it: where printing carries.
pub fn power_of_ten(r: &mut Rng, f: u8) -> u128 {
    let m = mfmt(f.min(7));
    let neg = r.chance(1, 2);
    let k = r.range((m.emin - m.p) * 301 / 1000, m.emax * 301 / 1000);
    let one = Big::from_u128(1);
    let mut v = if k >= 0 { m.round(neg, &Big::pow(10, k as u32), 0, false, 0).0 } else { m.ratio(neg, &one, &Big::pow(10, -k as u32), 0, 0).0 };
    if v.c == C::Fin && r.chance(1, 3) {
        v = m.next(v, !neg).0;
    }
    m.encode(v)
}

/// A value some way above a power of ten, most often one whose significand is nearly all ones: where
/// the digits printed are spread the widest between the values they must tell apart.
pub fn above_power_of_ten(r: &mut Rng, f: u8) -> u128 {
    let m = mfmt(f.min(7));
    let neg = r.chance(1, 2);
    let (lo, hi) = ((m.emin - m.p) * 301 / 1000, m.emax * 301 / 1000);
    let tight = r.chance(2, 3);
    let k = (0..12)
        .map(|_| if r.chance(1, 2) { r.range(lo, hi) } else { r.range(lo.max(-40), hi.min(40)) })
        .find(|&k| !tight || (k as f64 * std::f64::consts::LOG2_10).rem_euclid(1.0) > 0.8)
        .unwrap_or(0);
    let v = if k >= 0 { m.round(neg, &Big::pow(10, k as u32), 0, false, 0).0 } else { m.ratio(neg, &Big::from_u128(1), &Big::pow(10, -k as u32), 0, 0).0 };
    if v.c != C::Fin || v.sig == 0 {
        return m.encode(v);
    }
    let room = (v.sig / 9).min(low(m.p) - v.sig);
    let up = if room == 0 { 0 } else { (r.u128() % (room + 1)) >> if r.chance(1, 2) { 0 } else { r.below(m.p as u64) } };
    m.encode(m.round(neg, &Big::from_u128(v.sig + up), v.e, false, 3).0)
}

/// Small multiples of the same power of two, anywhere in the range; or a dividend that is an exact
/// or nearly exact odd multiple of half the divisor.
pub fn small_pair(r: &mut Rng, f: u8) -> (u128, u128) {
    let m = mfmt(f);
    let bottom = m.emin - m.p + 1;
    let (i, j) = if r.chance(1, 2) {
        (1 + r.below(40) as u128, 1 + r.below(24) as u128)
    } else {
        let n = r.range(1, m.p - 1);
        let j = 1 + (r.u128() & low(n - 1));
        let k = 2 * (r.u128() & low((m.p - n - 1).max(0))) + 1;
        let i = j.saturating_mul(k);
        (if r.chance(1, 3) { i.wrapping_add(r.below(3) as u128).wrapping_sub(1) } else { i }, 2 * j)
    };
    let top = m.emax - m.p - 1;
    let q = match r.below(5) {
        0 | 1 => bottom,
        2 => bottom + r.range(0, 3),
        3 => r.range(bottom, top.max(bottom)),
        _ => 0,
    }
    .clamp(bottom, top.max(bottom));
    let put = |neg: bool, x: u128, q: i64| m.encode(m.round(neg, &Big::from_u128(x), q, false, 3).0);
    let d = if r.chance(1, 4) { r.range(0, 3) } else { 0 };
    (put(r.chance(1, 2), i, q + d), put(r.chance(1, 2), j, q))
}

/// A value related to x.
pub fn related(r: &mut Rng, f: u8, x: u128) -> u128 {
    if f == 8 {
        return match r.below(6) {
            0 => x,
            1 => x ^ 1 << 63 ^ 1 << 127,
            2 => x ^ 1 << 63,
            3 => x ^ 1u128 << r.below(128),
            4 => x & (u64::MAX as u128),
            _ => dd_value(r),
        };
    }
    let m = mfmt(f);
    let p = m.decode(x);
    if p.c != C::Fin {
        return match r.below(4) {
            0 => x,
            1 => x ^ 1u128 << (m.bits - 1),
            2 => x ^ 1u128 << r.below(m.bits as u64),
            _ => value(r, f),
        };
    }
    let neg = r.chance(1, 2);
    match r.below(12) {
        0 => x,
        1 => m.encode(Fp { neg: !p.neg, ..p }),
        2 => m.encode(m.next(p, r.chance(1, 2)).0),
        3 => {
            let n = m.next(p, r.chance(1, 2)).0;
            m.encode(Fp { neg: !n.neg, ..n })
        }
        // about half an ulp of x, exactly or nearly
        4 | 5 => {
            let near = sig_pattern(r, m.p - 1);
            let mag = if r.chance(1, 2) { Big::from_u128(1u128 << (m.p - 1)) } else { Big::from_u128(1u128 << (m.p - 1) | near) };
            let d = if r.chance(2, 3) { 0 } else { r.range(-2, 2) };
            m.encode(m.round(neg, &mag, p.e - m.p + d, false, 3).0)
        }
        // same binade neighbourhood
        6 | 7 => {
            let sig = 1u128 << (m.p - 1) | sig_pattern(r, m.p - 1);
            m.encode(m.round(neg, &Big::from_u128(sig), p.e + r.range(-3, 3), false, 3).0)
        }
        // a distance around the precision
        8 => {
            let sig = 1u128 << (m.p - 1) | sig_pattern(r, m.p - 1);
            m.encode(m.round(neg, &Big::from_u128(sig), p.e + r.range(-2, 2) - if r.chance(1, 2) { m.p } else { 2 * m.p }, false, 3).0)
        }
        // a product or quotient that lands near a boundary of the exponent range
        9 => {
            let sig = 1u128 << (m.p - 1) | sig_pattern(r, m.p - 1);
            let pe = p.e + Big::from_u128(p.sig).bits() - 1;
            let t = *r.pick(&[m.emin - pe, m.emax - pe, m.emin - m.p - pe, pe - m.emax, pe - m.emin, pe - m.emin + m.p]) + r.range(-2, 2);
            m.encode(m.round(neg, &Big::from_u128(sig), t - m.p + 1, false, 3).0)
        }
        // small multiples and fractions
        10 => m.encode(m.round(neg, &Big::from_u128(p.sig).mul(&Big::from_u128(r.below(9) as u128 + 1)), p.e - r.range(0, 3), false, 3).0),
        _ => value(r, f),
    }
}

fn int_value(r: &mut Rng, p: i64) -> i128 {
    match r.below(9) {
        0 => r.range(-20, 20) as i128,
        1 => i128::MIN,
        2 => i128::MAX,
        3 => (1i128 << r.below(127)).wrapping_add(r.range(-2, 2) as i128),
        4 => -(1i128 << r.below(127)).wrapping_add(r.range(-2, 2) as i128),
        5 => {
            // ties for the precision at hand
            let extra = r.range(1, 6);
            let sig = 1u128 << (p - 1).min(126) | sig_pattern(r, (p - 1).clamp(1, 126));
            let v = sig << extra | 1 << (extra - 1) | if r.chance(1, 3) { 1 } else { 0 };
            v as i128
        }
        6 => -1,
        7 => (r.u128() >> r.below(128)) as i128,
        _ => r.u128() as i128,
    }
}

pub fn spec(r: &mut Rng) -> Spec {
    let mut s = Spec::default();
    if r.chance(2, 5) {
        return s;
    }
    if r.chance(1, 2) {
        s.width = Some(match r.below(5) {
            0 => 0,
            1 => r.below(6) as u16,
            2 => r.below(30) as u16,
            3 => 40 + r.below(400) as u16,
            _ => r.below(4) as u16,
        });
    }
    if r.chance(1, 2) {
        s.prec = Some(match r.below(5) {
            0 => r.below(3) as u16,
            1 => r.below(10) as u16,
            2 => r.below(25) as u16,
            3 if r.chance(1, 12) => 300 + r.below(4000) as u16,
            3 => 30 + r.below(300) as u16,
            _ => r.below(60) as u16,
        });
    }
    s.alt = r.chance(1, 2);
    s.plus = r.chance(1, 5);
    if r.chance(1, 8) {
        s.fill = r.below(4) as u8;
    }
    s
}

fn digits(r: &mut Rng, n: u64) -> String {
    let style = r.below(4);
    (0..n)
        .map(|_| match style {
            0 => (b'0' + r.below(10) as u8) as char,
            1 => if r.chance(1, 6) { (b'0' + r.below(10) as u8) as char } else { '0' },
            2 => if r.chance(1, 6) { (b'0' + r.below(10) as u8) as char } else { '9' },
            _ => (b'0' + r.below(10) as u8) as char,
        })
        .collect()
}

/// Decimal digits of a big integer.
pub fn big_to_dec(b: &Big) -> String {
    let mut parts = Vec::new();
    let d = Big::from_u128(1_000_000_000);
    let mut x = b.clone();
    while !x.is_zero() {
        let (q, r) = x.divrem(&d);
        parts.push(r.to_u128() as u32);
        x = q;
    }
    let mut s = String::new();
    for (i, p) in parts.iter().rev().enumerate() {
        if i == 0 {
            s.push_str(&p.to_string());
        } else {
            s.push_str(&format!("{p:09}"));
        }
    }
    if s.is_empty() {
        s.push('0');
    }
    s
}

/// The exact decimal expansion of sig * 2^e as text, or a midpoint next to it.
fn exact_text(r: &mut Rng, f: u8) -> String {
    let m = mfmt(f);
    let mut x = finite(r, f);
    for _ in 0..6 {
        // Keep most expansions short.
        if x.e > -400 && x.e < 400 {
            break;
        }
        if r.chance(1, 12) {
            break;
        }
        x = finite(r, f);
    }
    let (mut n, mut e) = (Big::from_u128(x.sig), x.e);
    match r.below(5) {
        0 => {}
        1 | 2 => {
            // midpoint between x and its outer neighbour
            n = n.shl(1).add(&Big::from_u128(1));
            e -= 1;
        }
        3 => {
            // midpoint towards zero (binade boundaries halve the gap)
            let k = if x.sig == 1 << (m.p - 1) { 2 } else { 1 };
            n = n.shl(k).sub(&Big::from_u128(1));
            e -= k;
        }
        _ => {
            // overflow threshold
            let l = m.largest(false);
            n = Big::from_u128(l.sig).shl(1).add(&Big::from_u128(1));
            e = l.e - 1;
        }
    }
    if e.abs() > 1500 && !r.chance(1, 20) {
        // far too many digits for every run
        e = e.signum() * 40;
    }
    let (mut s, mut k);
    if e >= 0 {
        s = big_to_dec(&n.shl(e));
        k = 0i64;
    } else {
        s = big_to_dec(&n.mul(&Big::pow(5, (-e) as u32)));
        k = e;
    }
    // Nudge: exactly there, a hair above, a hair below, or cut off.
    match r.below(5) {
        0 | 1 => {}
        2 => {
            let z = r.below(60);
            s.push_str(&"0".repeat(z as usize));
            s.push('1');
            k -= z as i64 + 1;
        }
        3 => {
            // subtract one unit in a later place: append then decrement
            let z = 1 + r.below(40) as usize;
            let mut b: Vec<u8> = s.into_bytes();
            b.extend(std::iter::repeat(b'0').take(z));
            let mut i = b.len();
            while i > 0 {
                i -= 1;
                if b[i] == b'0' {
                    b[i] = b'9';
                } else {
                    b[i] -= 1;
                    break;
                }
            }
            s = String::from_utf8(b).unwrap();
            k -= z as i64;
        }
        _ => {
            let keep = 1 + r.below(s.len() as u64) as usize;
            k += (s.len() - keep) as i64;
            s.truncate(keep);
        }
    }
    layout(r, s, k)
}

/// A count that is large now and then, often beside a power of two.
fn many(r: &mut Rng) -> u64 {
    let n = match r.below(4) {
        0 => (1u64 << r.range(4, 11)).wrapping_add_signed(r.range(-2, 2)),
        1 => 250 + r.below(30),
        2 => r.below(400),
        _ => r.below(2500),
    };
    n.max(1)
}

/// Digits * 10^k in one of the spellings of the grammar.
fn layout(r: &mut Rng, mut s: String, mut k: i64) -> String {
    match r.below(40) {
        0 => {
            // Many zeros in front.
            let z = many(r) as usize;
            s.insert_str(0, &"0".repeat(z));
            let at = match r.below(3) {
                0 => 1,
                1 => 0,
                _ => r.below(s.len() as u64 + 1) as usize,
            };
            let e = k + (s.len() - at) as i64;
            s.insert(at, '.');
            return format!("{s}e{e}");
        }
        1 => {
            // Many zeros behind.
            let z = many(r);
            s.push_str(&"0".repeat(z as usize));
            k -= z as i64;
            let dot = if r.chance(1, 2) { "." } else { "" };
            return format!("{s}{dot}e{k}");
        }
        _ => {}
    }
    if r.chance(1, 5) {
        s.insert_str(0, &"0".repeat(r.below(5) as usize));
    }
    if r.chance(1, 5) {
        let z = r.below(5);
        s.push_str(&"0".repeat(z as usize));
        k -= z as i64;
    }
    match r.below(5) {
        0 if (-40..=40).contains(&k) => {
            // plain
            if k >= 0 {
                s.push_str(&"0".repeat(k as usize));
            } else {
                let d = (-k) as usize;
                if s.len() <= d {
                    s.insert_str(0, &"0".repeat(d + 1 - s.len()));
                }
                s.insert(s.len() - d, '.');
                if r.chance(1, 4) && s.starts_with("0.") {
                    s.remove(0);
                }
            }
            s
        }
        1 => {
            // one digit before the dot
            let e = k + s.len() as i64 - 1;
            s.insert(1, '.');
            format!("{s}{}{e}", if r.chance(1, 2) { "e" } else { "E" })
        }
        2 => {
            // dot anywhere
            let at = r.below(s.len() as u64 + 1) as usize;
            let e = k + (s.len() - at) as i64;
            s.insert(at, '.');
            let plus = if e >= 0 && r.chance(1, 2) { "+" } else { "" };
            format!("{s}e{plus}{e}")
        }
        _ => {
            if k == 0 {
                s
            } else {
                format!("{s}e{k}")
            }
        }
    }
}

pub fn hex_text(r: &mut Rng, f: u8) -> String {
    let m = mfmt(f);
    let x = finite(r, f);
    let extra = r.below(40) as i64;
    let tail = match r.below(4) {
        0 => Big::default(),
        1 => Big::from_u128(1).shl((extra - 1).max(0)),
        2 => Big::from_u128(1).shl((extra - 1).max(0)).add(&Big::from_u128(1)),
        _ => Big::from_u128(r.u128() & low(extra)),
    };
    let n = Big::from_u128(x.sig).shl(extra).add(&tail);
    let e = x.e - extra;
    let mut h: String = n.0.iter().rev().enumerate().map(|(i, d)| if i == 0 { format!("{d:x}") } else { format!("{d:08x}") }).collect();
    if r.chance(1, 6) {
        // Much more than fits, of which one digit far out may decide.
        let n = if r.chance(1, 3) { 1 << r.below(11) } else { 40 };
        let mut n = r.below(n) as i64;
        let mut h = h;
        h.push_str(&"0".repeat(n as usize));
        if r.chance(2, 3) {
            h.push(*r.pick(&['1', '1', '8', 'f']));
            n += 1;
        }
        let by = if r.chance(4, 5) { e - 4 * n } else { e };
        if r.chance(1, 2) {
            let at = r.below(h.len() as u64 + 1) as usize;
            let k = by + 4 * (h.len() - at) as i64;
            h.insert(at, '.');
            return format!("0x{h}p{k}");
        }
        return format!("0x{h}p{by}");
    }
    if r.chance(1, 5) {
        h.insert_str(0, &"0".repeat(r.below(6) as usize));
    }
    if r.chance(1, 12) {
        // Many zeros in front, of which some come after the point.
        let z = many(r) as usize;
        h.insert_str(0, &"0".repeat(z));
        let at = if r.chance(1, 2) { r.below(3) as usize } else { r.below(z as u64 + 1) as usize };
        let k = e + 4 * (h.len() - at) as i64;
        h.insert(at, '.');
        return format!("0x{h}p{k}");
    }
    if r.chance(1, 24) {
        // Many zeros behind, before the point.
        let z = many(r) as usize;
        h.push_str(&"0".repeat(z));
        let k = e - 4 * z as i64;
        return format!("0x{h}{}p{k}", if r.chance(1, 2) { "." } else { "" });
    }
    let _ = m;
    if r.chance(1, 2) {
        let at = r.below(h.len() as u64 + 1) as usize;
        let k = e + 4 * (h.len() - at) as i64;
        h.insert(at, '.');
        format!("0x{h}p{k}")
    } else {
        format!("{}{h}{}{}{e}", if r.chance(1, 4) { "0X" } else { "0x" }, if r.chance(1, 4) { "P" } else { "p" }, if e >= 0 && r.chance(1, 3) { "+" } else { "" })
    }
}

pub fn special_text(r: &mut Rng) -> String {
    let s = *r.pick(&["inf", "-inf", "+Inf", "-Inf", "INFINITY", "-INFINITY", "nan", "-nan", "NaN", "snan", "-sNaN", "SNaN", "nan123", "nan(7)", "snan(0x2a)", "-nan0xdead", "nan(017)", "snan(1)"]);
    if r.chance(1, 2) {
        return s.to_string();
    }
    let sign = *r.pick(&["", "", "-", "-"]);
    let name = *r.pick(&["nan", "NaN", "NAN", "snan", "sNaN", "SNaN"]);
    let n = if r.chance(1, 6) { 30 + r.below(20) } else { 1 + r.below(12) };
    let base = *r.pick(&[("", 10u64), ("0x", 16), ("0X", 16), ("0", 8)]);
    let d: String = (0..n).map(|_| std::char::from_digit(r.below(base.1) as u32, 16).unwrap()).collect();
    let d = if r.chance(1, 4) { d.to_uppercase() } else { d };
    if r.chance(1, 2) {
        format!("{sign}{name}({}{d})", base.0)
    } else {
        format!("{sign}{name}{}{d}", base.0)
    }
}

pub fn bad_text(r: &mut Rng, f: u8) -> String {
    let fixed = ["", "-", "+", ".", "-.", "+.", "e5", ".e3", "1.2.3", "0x", "0xp3", "0x.p1", "0x1", "0x1p", "0x1p+", "1e5x", "--1", "+-1", "1 ", " 1", "0x1.1.1p0", "1e+-3", "nan()", "nan(", "infx", "+nan", "0xg", "1_0", "\u{661}", "1e\u{663}", "+inf", "+INFINITY", "nan(0x)", "nan99999999999999999999999999999999999999999999", "0x1p99999999999999999999", "1e99999999999999999999", "1e-99999999999999999999", "0x1p-99999999999999999999"];
    if r.chance(1, 2) {
        return r.pick(&fixed).to_string();
    }
    let base = if r.chance(1, 4) { special_text(r) } else { text(r, f) };
    let mut b: Vec<char> = base.chars().collect();
    if r.chance(1, 3) {
        // a character that is no ASCII but looks like, folds to or is as long as something that matters
        const ODD: &[char] = &['\u{e9}', '\u{b2}', '\u{2460}', '\u{ff15}', '\u{661}', '\u{2160}', '\u{17f}', '\u{130}', '\u{131}', '\u{212a}', '\u{10ffff}', '\u{0}', '\u{7f}', '\u{80}', '\u{7ff}', '\u{fb01}', '\u{2212}', '\u{ff0b}', '\u{ff0e}', '\u{b7}', '\u{1d7d8}', '\u{a0}', '\u{2028}', '\u{130}'];
        let i = match r.below(3) {
            0 => b.len(),
            1 => b.len().saturating_sub(1),
            _ => r.below(b.len() as u64 + 1) as usize,
        };
        let c = *r.pick(ODD);
        if i < b.len() && r.chance(1, 2) {
            b[i] = c;
        } else {
            b.insert(i, c);
        }
        if r.chance(2, 3) {
            return b.into_iter().collect();
        }
    }
    for _ in 0..1 + r.below(2) {
        let i = r.below(b.len() as u64 + 1) as usize;
        match r.below(3) {
            0 if i < b.len() => {
                b.remove(i);
            }
            1 if i < b.len() => b[i] = *r.pick(&['.', 'e', '-', '+', 'x', 'p', '0', '9', '(', ' ', '\u{ff}', 'E', '5']),
            _ => b.insert(i, *r.pick(&['.', 'e', '-', '+', 'x', 'p', '0', '9', ')', ' ', '\u{663}', 'P', '1'])),
        }
    }
    b.into_iter().collect()
}

/// A text within the grammar.
pub fn text(r: &mut Rng, f: u8) -> String {
    let f = if f == 8 { 2 } else { f };
    let body = match r.below(16) {
        0 => return special_text(r),
        1 | 2 => hex_text(r, f),
        3..=6 => exact_text(r, f),
        7 => {
            let n = 1 + r.below(60);
            let s = digits(r, n);
            let k = r.range(-60, 60);
            layout(r, s, k)
        }
        8 => {
            let m = mfmt(f);
            let n = 1 + r.below(30);
            let s = digits(r, n);
            let dm = m.emax * 301 / 1000;
            let dl = (m.emin - m.p) * 301 / 1000;
            let base = *r.pick(&[dm, dl, dl + 10, dm - 10]) - n as i64;
            let j = r.range(-4, 4);
            layout(r, s, base + j)
        }
        9 => {
            let s = digits(r, 1);
            let e = *r.pick(&["9999999999", "-9999999999", "100000", "-100000", "2147483647", "-2147483648", "2147483648", "5000", "-5000", "0"]);
            format!("{s}{}e{e}", *r.pick(&["", ".", ".5", "00000"]))
        }
        10 => {
            let span = if r.chance(1, 10) { 3000 } else { 300 };
            let n = 100 + r.below(span);
            let s = digits(r, n);
            let k = r.range(-400, 50);
            layout(r, s, k)
        }
        11 => {
            let n = 1 + r.below(3);
            let s = digits(r, n);
            layout(r, s, 0)
        }
        12 => {
            let k = r.below(12) as usize;
            format!("{}{}", *r.pick(&["0", "0.0", "00", ".0", "0.", "0e5", "0.000e-99999999999", "0x0p5", "0x.0p-3"]), "".repeat(k))
        }
        _ => {
            let n = 1 + r.below(20);
            let s = digits(r, n);
            let k = r.range(-20, 20);
            layout(r, s, k)
        }
    };
    match r.below(4) {
        0 => format!("-{body}"),
        1 if !body.starts_with(['i', 'I', 'n', 'N', 's', 'S']) => format!("+{body}"),
        _ => body,
    }
}

#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum Mix {
    /// Anything.
    All,
    /// No printing and no decimal text: what must not touch the allocator.
    NoHeap,
    /// Printing only.
    Print,
    /// Decimal conversions both ways.
    Decimal,
    /// Cheap calls only (long histories).
    Cheap,
}

const ARITH: &[Kind] = &[Kind::Add, Kind::Sub, Kind::Mul, Kind::Div, Kind::MulAdd, Kind::Add, Kind::Mul, Kind::MulAdd, Kind::OpAdd, Kind::OpSub, Kind::OpMul, Kind::OpDiv, Kind::OpMulAdd, Kind::AddAssign, Kind::SubAssign, Kind::MulAssign, Kind::DivAssign];
const REM: &[Kind] = &[Kind::CFmod, Kind::IeeeRem, Kind::OpRem, Kind::RemAssign];
const UNARY: &[Kind] = &[Kind::RoundInt, Kind::NextUp, Kind::NextDown, Kind::Neg, Kind::Abs, Kind::Classify, Kind::IsInteger, Kind::Bits, Kind::Ilogb, Kind::ExactInv, Kind::Frexp, Kind::Scalbn];
const BIN: &[Kind] = &[Kind::CopySign, Kind::Min, Kind::Max, Kind::Minimum, Kind::Maximum, Kind::Cmp, Kind::CmpAbs];
const CONV: &[Kind] = &[Kind::ToI, Kind::ToU, Kind::FromI, Kind::FromU, Kind::Convert, Kind::Convert, Kind::Convert];
const MAKE: &[Kind] = &[Kind::Qnan, Kind::Snan, Kind::Consts];

/// Operations double-double implements without delegating to an unimplemented path.
pub fn pick_kind(r: &mut Rng, mix: Mix) -> Kind {
    let k = match mix {
        Mix::Print => return *r.pick(&[Kind::Display, Kind::Display, Kind::Display, Kind::Debug, Kind::DebugStatus]),
        Mix::Decimal => return *r.pick(&[Kind::Display, Kind::Display, Kind::FromStr, Kind::FromStr, Kind::FromStr, Kind::DebugStatus]),
        Mix::All => r.below(20),
        Mix::NoHeap | Mix::Cheap => r.below(17),
    };
    match k {
        0..=5 => *r.pick(ARITH),
        6 | 7 => {
            if mix == Mix::Cheap {
                *r.pick(ARITH)
            } else {
                *r.pick(REM)
            }
        }
        8..=10 => *r.pick(UNARY),
        11 => *r.pick(BIN),
        12..=15 => *r.pick(CONV),
        16 => *r.pick(MAKE),
        17 | 18 => Kind::FromStr,
        _ => *r.pick(&[Kind::Display, Kind::Display, Kind::Display, Kind::Debug, Kind::DebugStatus]),
    }
}

pub fn pick_fmt(r: &mut Rng, dd: bool) -> u8 {
    match r.below(if dd { 20 } else { 18 }) {
        0..=2 => 0,
        3..=5 => 1,
        6..=8 => 2,
        9 | 10 => 3,
        11 | 12 => 4,
        13 => 5,
        14 | 15 => 6,
        16 | 17 => 7,
        _ => 8,
    }
}

/// Inverse of an odd number modulo 2^128.
fn inv_odd(a: u128) -> u128 {
    let mut x = a; // right to 3 bits
    for _ in 0..6 {
        x = x.wrapping_mul(2u128.wrapping_sub(a.wrapping_mul(x)));
    }
    x
}

/// Operands whose exact product or quotient lies as close as it can to a representable value or to
/// the middle between two: where a dropped or invented sticky bit, or a misplaced carry, shows.
pub fn near_tie(r: &mut Rng, f: u8, div: bool) -> Option<(u128, u128)> {
    let m = mfmt(f);
    let p = m.p;
    for _ in 0..40 {
        let d = 1u128 << (p - 1) | sig_pattern(r, p - 1) | 1;
        let eps = *r.pick(&[1u128, 1, 1, 3, 5]);
        let eps = if r.chance(1, 2) { eps } else { eps.wrapping_neg() };
        let tie = r.chance(2, 3);
        let (a, b) = if div {
            // q d + eps = a 2^k with q of p bits (or p + 1 bits, odd)
            let n = p + tie as i64;
            let k = n - r.below(2) as i64;
            let q = eps.wrapping_neg().wrapping_mul(inv_odd(d)) & low(k) | (k < n) as u128 * (1u128 << (n - 1));
            let prod = Big::from_u128(q).mul(&Big::from_u128(d));
            let prod = if (eps as i128) > 0 { prod.add(&Big::from_u128(eps)) } else { prod.sub(&Big::from_u128(eps.wrapping_neg())) };
            (prod.shr(k).to_u128(), d)
        } else {
            let s = p - r.below(2) as i64;
            let t = eps.wrapping_add(tie as u128 * (1u128 << (s - 1)));
            (d, t.wrapping_mul(inv_odd(d)) & low(s) | (s < p) as u128 * (1u128 << (p - 1)))
        };
        if a >> (p - 1) != 1 || b >> (p - 1) != 1 {
            continue;
        }
        let (x, y) = (finite(r, f), finite(r, f));
        let put = |z: Fp, sig: u128| m.encode(m.round(z.neg, &Big::from_u128(sig), (z.e).max(m.emin - p + 1), false, 3).0);
        return Some((put(x, a), put(y, b)));
    }
    None
}

/// A product that is exactly the middle between two representable values (or exactly one), and an
/// addend far below it that decides.
pub fn fma_tie(r: &mut Rng, f: u8) -> (u128, u128, u128) {
    let m = mfmt(f);
    let p = m.p;
    let n = r.range(2, p - 1);
    let x = 1u128 << (n - 1) | sig_pattern(r, n - 1) | 1;
    let rest = p + r.below(2) as i64 - n + r.below(2) as i64;
    let rest = rest.clamp(1, p);
    let y = 1u128 << (rest - 1) | sig_pattern(r, (rest - 1).max(1)) & low(rest - 1) | 1;
    let (ex, ey) = (r.range(-20, 20), r.range(-20, 20));
    let lim = |e: i64| e.clamp(m.emin - p + 1, m.emax - p);
    let a = m.round(r.chance(1, 2), &Big::from_u128(x), lim(ex), false, 3).0;
    let b = m.round(r.chance(1, 2), &Big::from_u128(y), lim(ey), false, 3).0;
    let far = r.range(1, 3 * p);
    let c = if r.chance(1, 6) { m.smallest(r.chance(1, 2)) } else { m.round(r.chance(1, 2), &Big::from_u128(1u128 << (p - 1) | sig_pattern(r, p - 1)), (ex + ey - far - p).max(m.emin - p + 1), false, 3).0 };
    (m.encode(a), m.encode(b), m.encode(c))
}

/// Now and then, for operations that order their operands: those where the order is in the rules.
/// What is drawn depends on the operands only, so nothing after it is drawn differently.
fn contest(c: &mut OwnedCall) {
    let h = mix(c.a as u64 ^ mix((c.a >> 64) as u64 ^ mix(c.b as u64 ^ mix((c.b >> 64) as u64))));
    if h % 4 != 0 {
        return;
    }
    let r = &mut Rng::new(h, 4000, c.kind as u64);
    let (f, a) = (c.f, c.a);
    let top = 1u128 << (if f == 8 { 64 } else { width(f) } - 1);
    let pick = |r: &mut Rng| {
        let x = if f == 8 {
            *r.pick(&[0, 0, 1, 0x7ff0 << 48, 0x7ff8 << 48, 0x3ff0 << 48])
        } else {
            let m = mfmt(f);
            match r.below(6) {
                0 | 1 => 0,
                2 => m.encode(m.smallest(false)),
                3 if f < 8 => non_finite_or_zero(r, f),
                _ => a,
            }
        };
        if r.chance(1, 2) { x ^ top } else { x }
    };
    c.a = pick(r);
    c.b = if r.chance(1, 3) { c.a ^ top } else { pick(r) };
}

/// Completes a call of the given kind and format; operands already set are kept when `keep`.
pub fn fill(r: &mut Rng, kind: Kind, f: u8, good_text: bool) -> OwnedCall {
    let mut c = OwnedCall::new(kind, f);
    c.round = if r.chance(1, 3) { 0 } else { r.below(5) as u8 };
    c.prior = r.chance(1, 2);
    c.alt = r.chance(1, 8);
    c.a = value(r, f);
    c.b = if r.chance(2, 5) { related(r, f, c.a) } else { value(r, f) };
    if matches!(kind, Kind::Min | Kind::Max | Kind::Minimum | Kind::Maximum | Kind::Cmp | Kind::CmpAbs) {
        contest(&mut c);
    }
    let rem = matches!(kind, Kind::CFmod | Kind::IeeeRem | Kind::OpRem | Kind::RemAssign);
    if f != 8 && r.chance(1, if rem { 5 } else { 20 }) {
        (c.a, c.b) = small_pair(r, f);
    }
    if f != 8 && matches!(kind, Kind::Display | Kind::Debug | Kind::DebugStatus) && r.chance(1, 10) {
        c.a = above_power_of_ten(r, f);
    }
    if f != 8 && matches!(kind, Kind::Mul | Kind::Div | Kind::OpMul | Kind::OpDiv | Kind::MulAssign | Kind::DivAssign) && r.chance(1, 6) {
        if let Some((a, b)) = near_tie(r, f, matches!(kind, Kind::Div | Kind::OpDiv | Kind::DivAssign)) {
            (c.a, c.b) = (a, b);
        }
    }
    if f != 8 && matches!(kind, Kind::RoundInt | Kind::IsInteger | Kind::ToI | Kind::ToU) && r.chance(1, 3) {
        // The last places that can hold a fraction, and the first that make an integer.
        let m = mfmt(f);
        let e = if r.chance(1, 2) { m.p - 1 + r.range(-4, 2) } else { r.range(-3, 3) }.clamp(m.emin, m.emax);
        let sig = 1u128 << (m.p - 1) | sig_pattern(r, m.p - 1);
        c.a = m.encode(m.round(r.chance(1, 2), &Big::from_u128(sig), e - m.p + 1, false, 3).0);
    }
    if kind == Kind::MulAdd || kind == Kind::OpMulAdd {
        c.c = value(r, f);
        if f != 8 && r.chance(1, 6) {
            (c.a, c.b, c.c) = fma_tie(r, f);
            return c;
        }
        if f != 8 && r.chance(3, 5) {
            // an addend close to minus the product, or half an ulp of it
            let m = mfmt(f);
            let (p, _) = m.mul(m.decode(c.a), m.decode(c.b), r.below(5) as u8);
            let p = m.encode(p);
            c.c = match r.below(3) {
                0 => p ^ 1u128 << (m.bits - 1),
                1 => related(r, f, p ^ 1u128 << (m.bits - 1)),
                _ => related(r, f, p),
            };
        }
    }
    match kind {
        Kind::ToI | Kind::ToU => {
            let p = if f != 8 { mfmt(f).p } else { 106 };
            c.w = match r.below(4) {
                0 => *r.pick(&[8u32, 16, 32, 64, 128]),
                1 => (p + r.range(-1, 2)).clamp(1, 128) as u32,
                2 => 1 + r.below(128) as u32,
                _ => *r.pick(&[1u32, 2, 7, 31, 33, 63, 65, 127, 128, 128]),
            };
            if f != 8 && r.chance(1, 2) {
                // around the edge of the target type
                let m = mfmt(f);
                let edge = Big::from_u128(1).shl(c.w as i64 - r.below(2) as i64).shl(3);
                let off = Big::from_u128(r.below(17) as u128);
                let n = if r.chance(1, 2) || edge.cmp(&off) == std::cmp::Ordering::Less { edge.add(&off) } else { edge.sub(&off) };
                c.a = m.encode(m.round(r.chance(1, 2), &n, -3, false, r.below(5) as u8).0);
            }
        }
        Kind::FromI | Kind::FromU => c.i = int_value(r, if f != 8 { mfmt(f).p } else { 106 }),
        Kind::Convert => {
            c.g = r.below(8) as u8;
            if f >= 8 {
                c.g = 8;
            } else if r.chance(1, 3) {
                // a value that is interesting in the target format
                let (s, t) = (mfmt(f), mfmt(c.g));
                let y = finite(r, c.g);
                let n = Big::from_u128(y.sig).shl(2).add(&Big::from_u128(r.below(4) as u128));
                let (x, _) = s.round(y.neg, &n, y.e - 2, false, r.below(5) as u8);
                c.a = s.encode(x);
                let _ = t;
            }
        }
        Kind::Scalbn => {
            c.i = match r.below(6) {
                0 => *r.pick(&[i32::MIN, i32::MAX, i32::MIN + 1, -40000, 40000]) as i128,
                1 | 2 if f != 8 => {
                    let m = mfmt(f);
                    let x = m.decode(c.a);
                    let pe = if x.c == C::Fin { x.e + Big::from_u128(x.sig).bits() - 1 } else { 0 };
                    (*r.pick(&[m.emin - pe, m.emax - pe, m.emin - m.p - pe, m.emin - 3 - pe]) + r.range(-3, 3)) as i128
                }
                3 => r.range(-40000, 40000) as i128,
                _ => r.range(-70, 70) as i128,
            };
        }
        Kind::Qnan | Kind::Snan => c.i = if r.chance(1, 3) { r.below(4) as i128 } else { r.u128() as i128 },
        Kind::Consts => c.w = r.below(7) as u32,
        Kind::FromStr => c.text = if good_text || r.chance(4, 5) { text(r, f) } else { bad_text(r, f) },
        Kind::Display | Kind::Debug => c.spec = spec(r),
        Kind::DebugStatus => {
            c.spec = spec(r);
            c.i = r.below(32) as i128;
        }
        _ => {}
    }
    c
}

/// A call on pairs of doubles. Most operands are 106 consecutive bits, as the library rounds to.
pub fn pair_fill(r: &mut Rng, kind: Kind) -> OwnedCall {
    let f = if r.chance(1, 4) { 8 } else { WIDE };
    let mut c = fill(r, kind, f, true);
    c.f = 8;
    if f == WIDE {
        (c.a, c.b, c.c) = (pair(r, c.a), pair(r, c.b), pair(r, c.c));
    }
    c
}

fn pair(r: &mut Rng, x: u128) -> u128 {
    let p = model::dd::split(mfmt(WIDE).decode(x), 0).0;
    let b = model::dd::encode(p);
    if p.lo.c == C::Zero && p.hi.c == C::Fin && r.chance(1, 8) {
        // More bits than 106 consecutive ones.
        return b & u64::MAX as u128 | (value(r, 2) & 0x800f_ffff_ffff_ffff) << 64;
    }
    b
}

pub fn call(r: &mut Rng, mix: Mix, dd: bool) -> OwnedCall {
    let kind = pick_kind(r, mix);
    let f = pick_fmt(r, dd);
    normalise(fill(r, kind, f, false))
}

/// Clears the fields a kind does not read, so that equal calls are equal texts.
pub fn normalise(mut c: OwnedCall) -> OwnedCall {
    use Kind::*;
    let (a, b, cc, i, w, g, round, prior, alt, spec, text): (bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool) = match c.kind {
        Add | Sub | Mul | Div => (true, true, false, false, false, false, true, false, false, false, false),
        MulAdd => (true, true, true, false, false, false, true, false, false, false, false),
        OpMulAdd => (true, true, true, false, false, false, false, false, false, false, false),
        OpAdd | OpSub | OpMul | OpDiv | OpRem | AddAssign | SubAssign | MulAssign | DivAssign | RemAssign | CFmod | IeeeRem | CopySign | Min | Max | Minimum | Maximum | Cmp | CmpAbs => (true, true, false, false, false, false, false, false, false, false, false),
        RoundInt => (true, false, false, false, false, false, true, false, false, false, false),
        NextUp | NextDown | Neg | Abs | Classify | IsInteger | Bits | Ilogb | ExactInv => (true, false, false, false, false, false, false, false, false, false, false),
        ToI | ToU => (true, false, false, false, true, false, true, true, true, false, false),
        FromI | FromU => (false, false, false, true, false, false, true, false, true, false, false),
        Convert => (true, false, false, false, false, true, true, true, true, false, false),
        Scalbn => (true, false, false, true, false, false, true, false, true, false, false),
        Frexp => (true, false, false, false, false, false, true, true, true, false, false),
        Qnan | Snan => (false, false, false, true, false, false, false, false, true, false, false),
        Consts => (false, false, false, false, true, false, false, false, false, false, false),
        FromStr => (false, false, false, false, false, false, true, false, true, false, true),
        Display | Debug => (true, false, false, false, false, false, false, false, false, true, false),
        DebugStatus => (true, false, false, true, false, false, false, false, false, true, false),
    };
    if !a {
        c.a = 0
    }
    if !b {
        c.b = 0
    }
    if !cc {
        c.c = 0
    }
    if !i {
        c.i = 0
    }
    if !w {
        c.w = 0
    }
    if !g {
        c.g = 0
    }
    if !round {
        c.round = 0
    }
    if !prior {
        c.prior = false
    }
    if !alt {
        c.alt = false
    }
    if !spec {
        c.spec = Spec::default()
    }
    if !text {
        c.text.clear()
    }
    c
}

/// The same call with one argument changed: what a cache keyed on too little confuses.
pub fn variant(r: &mut Rng, c: &OwnedCall) -> OwnedCall {
    let mut v = c.clone();
    for _ in 0..4 {
        let k = if v.kind == Kind::FromStr && r.chance(1, 3) { 7 } else { r.below(11) };
        match k {
            0 => {
                // same bits, another format
                let f = pick_fmt(r, false);
                if v.kind != Kind::Convert && v.f < 8 {
                    v.f = f;
                    let m = low(width(f) as i64);
                    v.a &= m;
                    v.b &= m;
                    v.c &= m;
                }
            }
            1 => v.round = r.below(5) as u8,
            2 => v.a ^= 1u128 << (width(v.f) - 1),
            3 => v.b ^= 1u128 << (width(v.f) - 1),
            4 => v.a ^= 1u128 << r.below(width(v.f) as u64),
            5 => v.b ^= 1u128 << r.below(width(v.f) as u64),
            6 => std::mem::swap(&mut v.a, &mut v.b),
            7 => match v.kind {
                Kind::Display | Kind::Debug | Kind::DebugStatus => v.spec = spec(r),
                Kind::Convert if v.f < 8 => v.g = r.below(8) as u8,
                Kind::ToI | Kind::ToU => v.w = 1 + r.below(128) as u32,
                Kind::Scalbn => v.i = r.range(-40, 40) as i128,
                Kind::FromI | Kind::FromU => v.i = v.i.wrapping_neg(),
                Kind::FromStr => v.text = mutate_text(r, &v.text),
                _ => v.c ^= 1u128 << (width(v.f) - 1),
            },
            8 => {
                // sibling operation on the same operands
                let fam: &[Kind] = match v.kind {
                    Kind::Add | Kind::Sub | Kind::Mul | Kind::Div => &[Kind::Add, Kind::Sub, Kind::Mul, Kind::Div, Kind::CFmod, Kind::IeeeRem],
                    Kind::ToI | Kind::ToU => &[Kind::ToI, Kind::ToU],
                    Kind::NextUp | Kind::NextDown => &[Kind::NextUp, Kind::NextDown],
                    Kind::CFmod | Kind::IeeeRem => &[Kind::CFmod, Kind::IeeeRem, Kind::Div],
                    Kind::Min | Kind::Max | Kind::Minimum | Kind::Maximum => &[Kind::Min, Kind::Max, Kind::Minimum, Kind::Maximum, Kind::Cmp],
                    Kind::Display | Kind::Debug => &[Kind::Display, Kind::Debug],
                    Kind::RoundInt => &[Kind::RoundInt, Kind::IsInteger],
                    _ => &[],
                };
                if !fam.is_empty() {
                    v.kind = *r.pick(fam);
                }
            }
            9 => v.prior = !v.prior,
            _ => v.b = related(r, v.f, v.a),
        }
        let n = normalise(v.clone());
        if n != *c {
            return n;
        }
    }
    normalise(v)
}

/// Another call that a weak key, truncated, folded or summed, takes for this one.
pub fn forge(r: &mut Rng, c: &OwnedCall) -> OwnedCall {
    let mut v = c.clone();
    for _ in 0..6 {
        let w = width(v.f) as u64;
        let word = |r: &mut Rng| (r.u64() as u128) << 64 | r.u64() as u128;
        // A difference that stays clear of the low bits, or of all but some bits.
        let part = |r: &mut Rng, w: u64| {
            let k = *r.pick(&[8u64, 16, 24, 32, 48, 52, 56, 60, 63, 64, 72, 80, 96, 112]);
            match r.below(4) {
                0 => 1u128 << r.below(w),
                1 if k < w => word(r) << k,
                2 if k < w => 1u128 << (k + r.below(w - k)),
                3 if k < w => word(r) >> (128 - w + k),
                _ => 1u128 << r.below(w),
            }
        };
        match r.below(if v.text.is_empty() { 12 } else { 24 }) {
            0 | 1 => v.a ^= part(r, w),
            2 => v.b ^= part(r, w),
            3 => {
                // the same exclusive or
                let m = part(r, w);
                v.a ^= m;
                v.b ^= m;
            }
            4 => {
                // the same sum
                let m = part(r, w);
                v.a = v.a.wrapping_add(m);
                v.b = v.b.wrapping_sub(m);
            }
            5 => {
                let k = *r.pick(&[8u32, 16, 32, 64]);
                if k < w as u32 {
                    v.a = v.a >> k | v.a << (w as u32 - k);
                }
            }
            6 => v.c ^= part(r, w),
            7 | 8 => v.i ^= part(r, if v.kind == Kind::Scalbn { 32 } else { 128 }) as i128,
            9 => {
                let k = *r.pick(&[16u32, 32, 64]);
                if matches!(v.kind, Kind::ToI | Kind::ToU) {
                    v.w = (v.w + k - 1) % 128 + 1;
                } else if v.is_print() {
                    if let Some(p) = &mut v.spec.prec {
                        *p = p.wrapping_add(*r.pick(&[1, 16, 64, 256]));
                    } else {
                        v.spec.prec = v.spec.width.take();
                    }
                }
            }
            10 => match r.below(4) {
                0 => v.round = r.below(5) as u8,
                1 => v.f = pick_fmt(r, false),
                2 if v.g < 8 && matches!(v.kind, Kind::Convert) => v.g = r.below(8) as u8,
                _ => v.prior = !v.prior,
            },
            11 => std::mem::swap(&mut v.a, &mut v.b),
            _ => {
                let mut b: Vec<u8> = v.text.bytes().collect();
                let pos: Vec<usize> = (0..b.len()).filter(|&i| b[i].is_ascii_digit()).collect();
                if pos.len() > 1 {
                    let (i, j) = (*r.pick(&pos), *r.pick(&pos));
                    match r.below(6) {
                        // the same bytes in another order, or the same sum of them
                        0 => b.swap(i, j),
                        1 if i != j && b[i] < b'9' && b[j] > b'0' => {
                            b[i] += 1;
                            b[j] -= 1;
                        }
                        // as many, one other: near either end, in the middle
                        2 => b[pos[pos.len() / 2]] ^= 1,
                        3 => {
                            let k = pos.len() - 1 - r.below(4.min(pos.len() as u64)) as usize;
                            b[pos[k]] = b'0' + r.below(10) as u8;
                        }
                        4 => b[i] = b'0' + (b[i] - b'0' + 1 + r.below(9) as u8) % 10,
                        _ => b.insert(i, b'0' + r.below(10) as u8),
                    }
                }
                v.text = String::from_utf8(b).unwrap_or_else(|_| v.text.clone());
            }
        }
        if v.kind == Kind::Convert && v.f >= 8 {
            v.f = c.f;
        }
        let m = low(width(v.f) as i64);
        v.a &= m;
        v.b &= m;
        v.c &= m;
        let n = normalise(v.clone());
        if n != *c {
            return n;
        }
    }
    normalise(v)
}

/// As many bytes, other digits.
pub fn same_length(r: &mut Rng, t: &str) -> String {
    let mut b: Vec<u8> = t.bytes().collect();
    let pos: Vec<usize> = (0..b.len()).filter(|&i| b[i].is_ascii_digit()).collect();
    let sig: Vec<usize> = (0..b.len()).filter(|&i| matches!(b[i], b'-' | b'+' | b'.')).collect();
    for _ in 0..1 + r.below(4) {
        if !sig.is_empty() && r.chance(1, 6) {
            let i = *r.pick(&sig);
            match b[i] {
                b'-' => b[i] = b'+',
                b'+' => b[i] = b'-',
                _ if i + 1 < b.len() => b.swap(i, i + 1),
                _ => {}
            }
        } else if !pos.is_empty() {
            // the last digits are often the exponent
            let i = if r.chance(1, 2) { pos[pos.len() - 1 - r.below(3.min(pos.len() as u64)) as usize] } else { *r.pick(&pos) };
            if b[i].is_ascii_digit() {
                b[i] = b'0' + (b[i] - b'0' + 1 + r.below(9) as u8) % 10;
            }
        }
    }
    String::from_utf8(b).unwrap_or_else(|_| t.to_string())
}

pub fn mutate_text(r: &mut Rng, t: &str) -> String {
    if r.chance(1, 4) {
        return same_length(r, t);
    }
    let mut b: Vec<char> = t.chars().collect();
    if b.is_empty() {
        return "1".into();
    }
    match r.below(4) {
        0 => {
            if b[0] == '-' {
                b.remove(0);
            } else if b[0] == '+' {
                b[0] = '-';
            } else {
                b.insert(0, '-');
            }
        }
        1 => {
            let pos: Vec<usize> = (0..b.len()).filter(|&i| b[i].is_ascii_digit()).collect();
            if !pos.is_empty() {
                let i = *r.pick(&pos);
                b[i] = (b'0' + (b[i] as u8 - b'0' + 1 + r.below(9) as u8) % 10) as char;
            }
        }
        2 => {
            let pos: Vec<usize> = (0..b.len()).filter(|&i| b[i].is_ascii_digit()).collect();
            if let Some(&i) = pos.last() {
                b.insert(i, (b'0' + r.below(10) as u8) as char);
            }
        }
        _ => {
            let pos: Vec<usize> = (0..b.len()).filter(|&i| b[i].is_ascii_digit()).collect();
            if pos.len() > 1 {
                b.remove(*r.pick(&pos));
            }
        }
    }
    b.into_iter().collect()
}

// ---------------------------------------------------------------- texts for the heap properties

/// A decimal text of about n digits.
pub fn long_text(r: &mut Rng, n: u64) -> String {
    let s = digits(r, n);
    match r.below(6) {
        0 => s,
        1 => format!("0.{s}"),
        2 => {
            let k = r.below(n) as usize;
            format!("{}.{}", &s[..k], &s[k..])
        }
        3 => format!("{s}e-{n}"),
        4 => {
            let e = r.range(-6000, 6000) - n as i64;
            format!("{s}e{e}")
        }
        _ => {
            // many zeros before or after
            let z = "0".repeat(r.below(n) as usize);
            if r.chance(1, 2) {
                format!("0.{z}{}e{}", &s[..(n as usize).min(20)], z.len())
            } else {
                format!("{}{z}.{}e-{}", &s[..(n as usize).min(20)], &s[..(n as usize).min(9)], z.len())
            }
        }
    }
}

/// Exponents far outside every format, mantissas of all shapes.
pub fn extreme_text(r: &mut Rng) -> String {
    let n = if r.chance(1, 8) { 400 } else { 25 };
    let n = 1 + r.below(n);
    let m = digits(r, n);
    let m = match r.below(3) {
        0 => m,
        1 => format!("0.{m}"),
        _ => format!(".{m}"),
    };
    let e = match r.below(8) {
        0 => r.range(-60000, 60000),
        1 => r.range(-6000, 6000),
        2 => *r.pick(&[i32::MAX as i64, i32::MIN as i64, i32::MAX as i64 + 1, 9_999_999_999, -9_999_999_999]),
        3 => r.range(-70_000_000, 70_000_000),
        4 => r.range(-2_000_000_000, 2_000_000_000),
        5 => r.range(-24000, 24000),
        6 => {
            let k = r.below(31);
            let s = 1i64 << k;
            if r.chance(1, 2) { s } else { -s }
        }
        _ => r.range(-1000, 1000),
    };
    let sgn = *r.pick(&["", "-", "+"]);
    format!("{sgn}{m}e{e}")
}

pub fn long_hex(r: &mut Rng) -> String {
    let n = if r.chance(1, 6) { 600 } else { 60 };
    let n = 1 + r.below(n) as usize;
    let k = r.below(n as u64 + 1) as usize;
    let mut s = String::from("0x");
    for i in 0..n {
        if i == k {
            s.push('.');
        }
        let d = match r.below(4) {
            0 => 0,
            1 => 15,
            _ => r.below(16),
        };
        s.push(std::char::from_digit(d as u32, 16).unwrap());
    }
    let e = if r.chance(1, 4) { r.range(-40000, 40000) } else { r.range(-200, 200) };
    format!("{}{s}p{e}", *r.pick(&["", "-", "+"]))
}

/// Damaged, but never into something that looks decimal.
pub fn mutate_hex(r: &mut Rng, t: &str) -> String {
    let mut b: Vec<char> = t.chars().collect();
    let start = b.iter().position(|&c| c == 'x' || c == 'X').map_or(0, |i| i + 1);
    if start == 0 || b.len() <= start {
        return t.to_string();
    }
    let i = start + r.below((b.len() - start) as u64) as usize;
    match r.below(4) {
        0 => {
            b.truncate(i);
        }
        1 => b[i] = *r.pick(&['.', 'p', 'P', 'g', '-', ' ', '0', 'f']),
        2 => b.insert(i, *r.pick(&['.', 'p', 'q', '+', '1', 'F'])),
        _ => {
            b.remove(i);
        }
    }
    b.into_iter().collect()
}

pub fn non_finite_or_zero(r: &mut Rng, f: u8) -> u128 {
    if f == 8 {
        let h = non_finite_or_zero(r, 2);
        return h;
    }
    let m = mfmt(f);
    let neg = r.chance(1, 2);
    m.encode(match r.below(4) {
        0 | 1 => m.zero(neg),
        2 => m.inf(neg),
        _ => Fp { neg, ..m.qnan(None) },
    })
}
