//! The system under simulation: every public operation of rustc_apfloat as one flat call
//! interface on concrete types. This crate (and with it every generic instantiation of the
//! library) is what gets instrumented with yield points; it holds no state and never allocates
//! by itself.
#![no_std]

use core::cmp::Ordering;
use core::fmt::{self, Write};
use rustc_apfloat::ieee::{BFloat, Double, Float8E4M3FN, Float8E5M2, Half, Quad, Single, X87DoubleExtended};
use rustc_apfloat::ppc::DoubleDouble;
use rustc_apfloat::{unpack, Category, ExpInt, Float, FloatConvert, Round, Status, StatusAnd};

pub const N_FMT: usize = 9;
pub const N_IEEE: usize = 8;
pub const FMT_NAMES: [&str; N_FMT] = ["Half", "Single", "Double", "Quad", "BFloat", "F8E5M2", "F8E4M3FN", "X87", "DoubleDouble"];
pub const DD: u8 = 8;

macro_rules! kinds {
    ($($k:ident),* $(,)?) => {
        #[derive(Copy, Clone, PartialEq, Eq, Debug, PartialOrd, Ord, Hash)]
        #[repr(u8)]
        pub enum Kind { $($k),* }
        pub const KINDS: &[Kind] = &[$(Kind::$k),*];
        pub const KIND_NAMES: &[&str] = &[$(stringify!($k)),*];
    };
}

kinds! {
    Add, Sub, Mul, Div, MulAdd,
    OpAdd, OpSub, OpMul, OpDiv, OpRem, OpMulAdd,
    AddAssign, SubAssign, MulAssign, DivAssign, RemAssign,
    CFmod, IeeeRem, RoundInt, NextUp, NextDown,
    Neg, Abs, CopySign, Min, Max, Minimum, Maximum,
    Cmp, CmpAbs, Classify, IsInteger, Bits,
    ToI, ToU, FromI, FromU, Convert,
    Scalbn, Frexp, Ilogb, ExactInv,
    Qnan, Snan, Consts,
    FromStr, Display, Debug, DebugStatus,
}

#[derive(Copy, Clone, PartialEq, Eq, Debug, Default, Hash, PartialOrd, Ord)]
pub struct Spec {
    pub width: Option<u16>,
    pub prec: Option<u16>,
    pub alt: bool,
    pub plus: bool,
    /// 0: none, 1: `*<`, 2: `*^`, 3: `*>` (only with a width).
    pub fill: u8,
}

/// One call. Operands come as bit patterns (immediate mode) or as live values (register mode).
#[derive(Copy, Clone, Debug)]
pub struct Call<'a> {
    pub kind: Kind,
    pub f: u8,
    pub g: u8,
    pub round: u8,
    pub a: u128,
    pub b: u128,
    pub c: u128,
    pub i: i128,
    pub w: u32,
    /// Prior contents of output parameters.
    pub prior: bool,
    /// Use the sibling entry point with defaults (no rounding mode, no out-flag, no payload).
    pub alt: bool,
    pub spec: Spec,
    pub text: &'a str,
}

#[derive(Copy, Clone, PartialEq, Eq, Debug, Default, PartialOrd, Ord, Hash)]
#[repr(C)]
pub struct Out {
    pub bits: u128,
    pub ival: u128,
    pub aux: u64,
    pub status: u8,
    /// Output flag (is_exact, loses_info): 0, 1, or 2 when the call has none.
    pub flag: u8,
    /// 0: no error concept, 1: Ok, 2: Err.
    pub res: u8,
    /// 1 if `bits` is the bit pattern of a result value.
    pub has_val: u8,
}

#[derive(Copy, Clone)]
pub enum Val {
    H(Half),
    S(Single),
    D(Double),
    Q(Quad),
    B(BFloat),
    E5(Float8E5M2),
    E4(Float8E4M3FN),
    X(X87DoubleExtended),
    DD(DoubleDouble),
}

pub fn round_of(r: u8) -> Round {
    match r {
        0 => Round::NearestTiesToEven,
        1 => Round::TowardPositive,
        2 => Round::TowardNegative,
        3 => Round::TowardZero,
        _ => Round::NearestTiesToAway,
    }
}

pub trait Fl: Float + fmt::Debug {
    const ID: u8;
    fn conv(self, call: &Call, o: &mut Out) -> Val;
    fn wrap(self) -> Val;
    fn unwrap(v: &Val) -> Self;
}

macro_rules! conv_to {
    ($self:ident, $call:ident, $o:ident, $($id:literal => $t:ty, $v:ident);*) => {{
        let mut flag = $call.prior;
        let round = round_of($call.round);
        let r = match $call.g {
            $($id => {
                let s: StatusAnd<$t> = if $call.alt { $self.convert(&mut flag) } else { $self.convert_r(round, &mut flag) };
                $o.status = s.status.bits();
                $o.bits = s.value.to_bits();
                Val::$v(s.value)
            })*
            _ => $self.wrap(),
        };
        $o.flag = flag as u8;
        $o.has_val = 1;
        r
    }};
}

macro_rules! impl_fl {
    ($($t:ty, $id:literal, $v:ident);* $(;)?) => {$(
        impl Fl for $t {
            const ID: u8 = $id;
            #[inline(never)]
            fn conv(self, call: &Call, o: &mut Out) -> Val {
                conv_to!(self, call, o, 0 => Half, H; 1 => Single, S; 2 => Double, D; 3 => Quad, Q; 4 => BFloat, B; 5 => Float8E5M2, E5; 6 => Float8E4M3FN, E4; 7 => X87DoubleExtended, X)
            }
            fn wrap(self) -> Val { Val::$v(self) }
            fn unwrap(v: &Val) -> Self { match v { Val::$v(x) => *x, _ => Self::ZERO } }
        }
    )*};
}
impl_fl! {
    Half, 0, H; Single, 1, S; Double, 2, D; Quad, 3, Q; BFloat, 4, B; Float8E5M2, 5, E5; Float8E4M3FN, 6, E4; X87DoubleExtended, 7, X;
}
impl Fl for DoubleDouble {
    const ID: u8 = DD;
    fn conv(self, _: &Call, o: &mut Out) -> Val {
        o.has_val = 1;
        o.bits = self.to_bits();
        Val::DD(self)
    }
    fn wrap(self) -> Val {
        Val::DD(self)
    }
    fn unwrap(v: &Val) -> Self {
        match v {
            Val::DD(x) => *x,
            _ => Self::ZERO,
        }
    }
}

fn print_display(x: &dyn fmt::Display, s: &Spec, w: &mut dyn Write) -> fmt::Result {
    if let (Some(n), 1..=3) = (s.width, s.fill) {
        let n = n as usize;
        return match (s.fill, s.prec) {
            (1, None) => write!(w, "{:*<1$}", x, n),
            (2, None) => write!(w, "{:*^1$}", x, n),
            (_, None) => write!(w, "{:*>1$}", x, n),
            (1, Some(p)) => write!(w, "{:*<#1$.2$}", x, n, p as usize),
            (2, Some(p)) => write!(w, "{:*^1$.2$}", x, n, p as usize),
            (_, Some(p)) => write!(w, "{:*>1$.2$}", x, n, p as usize),
        };
    }
    match (s.width, s.prec, s.alt, s.plus) {
        (None, None, false, false) => write!(w, "{}", x),
        (None, None, true, false) => write!(w, "{:#}", x),
        (Some(n), None, false, false) => write!(w, "{:1$}", x, n as usize),
        (Some(n), None, true, false) => write!(w, "{:#1$}", x, n as usize),
        (None, Some(p), false, false) => write!(w, "{:.1$}", x, p as usize),
        (None, Some(p), true, false) => write!(w, "{:#.1$}", x, p as usize),
        (Some(n), Some(p), false, false) => write!(w, "{:1$.2$}", x, n as usize, p as usize),
        (Some(n), Some(p), true, false) => write!(w, "{:#1$.2$}", x, n as usize, p as usize),
        (None, None, false, true) => write!(w, "{:+}", x),
        (None, None, true, true) => write!(w, "{:+#}", x),
        (Some(n), None, false, true) => write!(w, "{:+01$}", x, n as usize),
        (Some(n), None, true, true) => write!(w, "{:+#01$}", x, n as usize),
        (None, Some(p), false, true) => write!(w, "{:+.1$}", x, p as usize),
        (None, Some(p), true, true) => write!(w, "{:+#.1$}", x, p as usize),
        (Some(n), Some(p), false, true) => write!(w, "{:+01$.2$}", x, n as usize, p as usize),
        (Some(n), Some(p), true, true) => write!(w, "{:+#01$.2$}", x, n as usize, p as usize),
    }
}

fn print_debug(x: &dyn fmt::Debug, s: &Spec, w: &mut dyn Write) -> fmt::Result {
    match (s.width, s.prec, s.alt) {
        (_, _, true) => write!(w, "{:#?}", x),
        (Some(n), Some(p), _) => write!(w, "{:1$.2$?}", x, n as usize, p as usize),
        (Some(n), None, _) => write!(w, "{:1$?}", x, n as usize),
        (None, Some(p), _) => write!(w, "{:.1$?}", x, p as usize),
        (None, None, _) => write!(w, "{:?}", x),
    }
}

fn fnv(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for &b in s.as_bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}

fn ord_code(o: Option<Ordering>) -> u64 {
    match o {
        None => 0,
        Some(Ordering::Less) => 1,
        Some(Ordering::Equal) => 2,
        Some(Ordering::Greater) => 3,
    }
}

/// Every classification predicate, as a bit mask.
pub fn classify<F: Float>(x: F) -> u64 {
    let mut m = match x.category() {
        Category::Infinity => 1u64,
        Category::NaN => 2,
        Category::Normal => 4,
        Category::Zero => 8,
    };
    let preds = [
        x.is_negative(),
        x.is_normal(),
        x.is_finite(),
        x.is_zero(),
        x.is_denormal(),
        x.is_infinite(),
        x.is_nan(),
        x.is_signaling(),
        x.is_non_zero(),
        x.is_finite_non_zero(),
        x.is_pos_zero(),
        x.is_neg_zero(),
        x.is_pos_infinity(),
        x.is_neg_infinity(),
        x.is_smallest(),
        x.is_smallest_normalized(),
        x.is_largest(),
    ];
    for (i, p) in preds.into_iter().enumerate() {
        m |= (p as u64) << (4 + i);
    }
    m
}

/// Every comparison, as a bit mask.
fn relations<F: Float>(a: F, b: F) -> u64 {
    ord_code(a.partial_cmp(&b)) | (a == b) as u64 * 4 | (a < b) as u64 * 8 | (a <= b) as u64 * 16 | (a > b) as u64 * 32 | (a >= b) as u64 * 64 | a.bitwise_eq(b) as u64 * 128
}

#[inline(never)]
fn run<F: Fl>(call: &Call, a: F, b: F, c: F, w: &mut dyn Write, o: &mut Out) -> Val {
    let round = round_of(call.round);
    let mut status = Status::OK;
    let mut r = a;
    o.flag = 2;
    let mut val = true;
    match call.kind {
        Kind::Add => r = unpack!(status|=, a.add_r(b, round)),
        Kind::Sub => r = unpack!(status|=, a.sub_r(b, round)),
        Kind::Mul => r = unpack!(status|=, a.mul_r(b, round)),
        Kind::Div => r = unpack!(status|=, a.div_r(b, round)),
        Kind::MulAdd => r = unpack!(status|=, a.mul_add_r(b, c, round)),
        Kind::OpAdd => r = unpack!(status=, a + b),
        Kind::OpSub => r = unpack!(status=, a - b),
        Kind::OpMul => r = unpack!(status=, a * b),
        Kind::OpDiv => r = unpack!(status=, a / b),
        Kind::OpRem => r = unpack!(status=, a % b),
        Kind::OpMulAdd => r = unpack!(status=, a.mul_add(b, c)),
        Kind::AddAssign => r += b,
        Kind::SubAssign => r -= b,
        Kind::MulAssign => r *= b,
        Kind::DivAssign => r /= b,
        Kind::RemAssign => r %= b,
        Kind::CFmod => r = unpack!(status|=, a.c_fmod(b)),
        Kind::IeeeRem => r = unpack!(status|=, a.ieee_rem(b)),
        Kind::RoundInt => r = unpack!(status|=, a.round_to_integral(round)),
        Kind::NextUp => r = unpack!(status|=, a.next_up()),
        Kind::NextDown => r = unpack!(status|=, a.next_down()),
        Kind::Neg => r = -a,
        Kind::Abs => r = a.abs(),
        Kind::CopySign => r = a.copy_sign(b),
        Kind::Min => r = a.min(b),
        Kind::Max => r = a.max(b),
        Kind::Minimum => r = a.minimum(b),
        Kind::Maximum => r = a.maximum(b),
        Kind::Cmp => {
            val = false;
            o.aux = relations(a, b);
        }
        Kind::CmpAbs => {
            val = false;
            if a.is_finite_non_zero() && b.is_finite_non_zero() {
                o.aux = ord_code(Some(a.cmp_abs_normal(b)));
            }
        }
        Kind::Classify => {
            val = false;
            o.aux = classify(a);
        }
        Kind::IsInteger => {
            val = false;
            o.aux = a.is_integer() as u64;
        }
        Kind::Bits => {}
        Kind::ToI => {
            val = false;
            let mut ex = call.prior;
            o.ival = if call.alt {
                // The variant with the default rounding mode and no flag.
                let v = unpack!(status=, a.to_i128(call.w as usize)) as u128;
                ex = false;
                v
            } else {
                unpack!(status|=, a.to_i128_r(call.w as usize, round, &mut ex)) as u128
            };
            o.flag = ex as u8;
        }
        Kind::ToU => {
            val = false;
            let mut ex = call.prior;
            o.ival = if call.alt {
                ex = false;
                unpack!(status=, a.to_u128(call.w as usize))
            } else {
                unpack!(status|=, a.to_u128_r(call.w as usize, round, &mut ex))
            };
            o.flag = ex as u8;
        }
        Kind::FromI => r = if call.alt { unpack!(status=, F::from_i128(call.i)) } else { unpack!(status|=, F::from_i128_r(call.i, round)) },
        Kind::FromU => r = if call.alt { unpack!(status=, F::from_u128(call.i as u128)) } else { unpack!(status|=, F::from_u128_r(call.i as u128, round)) },
        Kind::Convert => return a.conv(call, o),
        Kind::Scalbn => r = if call.alt { a.scalbn(call.i as ExpInt) } else { a.scalbn_r(call.i as ExpInt, round) },
        Kind::Frexp => {
            let mut e: ExpInt = if call.prior { 12345 } else { 0 };
            r = if call.alt { a.frexp(&mut e) } else { a.frexp_r(&mut e, round) };
            o.ival = e as i128 as u128;
        }
        Kind::Ilogb => {
            val = false;
            o.ival = a.ilogb() as i128 as u128;
        }
        Kind::ExactInv => match a.get_exact_inverse() {
            Some(x) => {
                o.aux = 1;
                r = x
            }
            None => val = false,
        },
        Kind::Qnan => r = F::qnan(if call.alt { None } else { Some(call.i as u128) }),
        Kind::Snan => r = F::snan(if call.alt { None } else { Some(call.i as u128) }),
        Kind::Consts => {
            r = match call.w % 7 {
                0 => F::ZERO,
                1 => F::INFINITY,
                2 => F::NAN,
                3 => F::SMALLEST,
                4 => F::smallest_normalized(),
                5 => F::largest(),
                _ => F::default(),
            };
            o.aux = F::BITS as u64 | (F::PRECISION as u64) << 16 | (F::MAX_EXP as u64 & 0xffff) << 32 | (F::MIN_EXP as u64 & 0xffff) << 48;
        }
        Kind::FromStr => {
            let res = if call.alt {
                call.text.parse::<F>().map(|v| Status::OK.and(v))
            } else {
                F::from_str_r(call.text, round)
            };
            match res {
                Ok(x) => {
                    o.res = 1;
                    r = unpack!(status|=, x);
                }
                Err(e) => {
                    o.res = 2;
                    val = false;
                    o.aux = fnv(e.0);
                }
            }
        }
        Kind::Display => {
            val = false;
            o.res = 1 + print_display(&a, &call.spec, w).is_err() as u8;
        }
        Kind::Debug => {
            val = false;
            o.res = 1 + print_debug(&a, &call.spec, w).is_err() as u8;
        }
        Kind::DebugStatus => {
            val = false;
            let s = Status::from_bits_truncate(call.i as u8).and(a);
            o.res = 1 + print_debug(&s, &call.spec, w).is_err() as u8;
        }
    }
    o.status = status.bits();
    if val {
        o.has_val = 1;
        o.bits = r.to_bits();
    }
    r.wrap()
}

macro_rules! dispatch {
    ($f:expr, $F:ident => $e:expr) => {
        match $f {
            0 => { type $F = Half; $e }
            1 => { type $F = Single; $e }
            2 => { type $F = Double; $e }
            3 => { type $F = Quad; $e }
            4 => { type $F = BFloat; $e }
            5 => { type $F = Float8E5M2; $e }
            6 => { type $F = Float8E4M3FN; $e }
            7 => { type $F = X87DoubleExtended; $e }
            _ => { type $F = DoubleDouble; $e }
        }
    };
}

/// Immediate mode: operands decoded from the bits in the call.
#[inline(never)]
pub fn exec(call: &Call, w: &mut dyn Write) -> Out {
    let mut o = Out::default();
    dispatch!(call.f, F => {
        run::<F>(call, F::from_bits(call.a), F::from_bits(call.b), F::from_bits(call.c), w, &mut o);
    });
    o
}

/// Register mode: operands are live values; the result stays live.
#[inline(never)]
pub fn exec_live(call: &Call, a: &Val, b: &Val, c: &Val, w: &mut dyn Write) -> (Out, Val) {
    let mut o = Out::default();
    let v = dispatch!(call.f, F => {
        run::<F>(call, <F as Fl>::unwrap(a), <F as Fl>::unwrap(b), <F as Fl>::unwrap(c), w, &mut o)
    });
    (o, v)
}

#[inline(never)]
pub fn load(f: u8, bits: u128) -> Val {
    dispatch!(f, F => F::from_bits(bits).wrap())
}

#[inline(never)]
pub fn zero(f: u8) -> Val {
    dispatch!(f, F => F::ZERO.wrap())
}

impl Val {
    #[inline(never)]
    pub fn to_bits(&self) -> u128 {
        match self {
            Val::H(x) => x.to_bits(),
            Val::S(x) => x.to_bits(),
            Val::D(x) => x.to_bits(),
            Val::Q(x) => x.to_bits(),
            Val::B(x) => x.to_bits(),
            Val::E5(x) => x.to_bits(),
            Val::E4(x) => x.to_bits(),
            Val::X(x) => x.to_bits(),
            Val::DD(x) => x.to_bits(),
        }
    }
    pub fn fmt_id(&self) -> u8 {
        match self {
            Val::H(_) => 0,
            Val::S(_) => 1,
            Val::D(_) => 2,
            Val::Q(_) => 3,
            Val::B(_) => 4,
            Val::E5(_) => 5,
            Val::E4(_) => 6,
            Val::X(_) => 7,
            Val::DD(_) => 8,
        }
    }
}

pub fn fmt_bits(f: u8) -> u32 {
    dispatch!(f, F => F::BITS as u32)
}
pub fn fmt_prec(f: u8) -> u32 {
    dispatch!(f, F => F::PRECISION as u32)
}

macro_rules! on_val {
    ($v:expr, $x:ident => $e:expr) => {
        match $v {
            Val::H($x) => $e,
            Val::S($x) => $e,
            Val::D($x) => $e,
            Val::Q($x) => $e,
            Val::B($x) => $e,
            Val::E5($x) => $e,
            Val::E4($x) => $e,
            Val::X($x) => $e,
            Val::DD($x) => $e,
        }
    };
}

#[inline(never)]
pub fn identical(a: &Val, b: &Val) -> bool {
    a.fmt_id() == b.fmt_id() && dispatch!(a.fmt_id(), F => <F as Fl>::unwrap(a).bitwise_eq(<F as Fl>::unwrap(b)))
}

#[inline(never)]
pub fn compare(a: &Val, b: &Val) -> u64 {
    dispatch!(a.fmt_id(), F => relations(<F as Fl>::unwrap(a), <F as Fl>::unwrap(b)))
}

/// Default text of a live value.
#[inline(never)]
pub fn print_val(v: &Val, w: &mut dyn Write) -> fmt::Result {
    on_val!(v, x => write!(w, "{}", x))
}

#[inline(never)]
pub fn classify_val(v: &Val) -> u64 {
    on_val!(v, x => classify(*x))
}

#[inline(never)]
pub fn parse_val(f: u8, s: &str) -> Result<Val, ()> {
    dispatch!(f, F => match s.parse::<F>() {
        Ok(x) => Ok(x.wrap()),
        Err(_) => Err(()),
    })
}
