//! `f64`'s API on the symbolic scalar.
use crate::*;
use std::cmp::Ordering;

pub mod consts {
    use super::{lit, S};
    pub const PI: S = lit(std::f64::consts::PI);
    pub const FRAC_PI_2: S = lit(std::f64::consts::FRAC_PI_2);
    pub const FRAC_PI_3: S = lit(std::f64::consts::FRAC_PI_3);
    pub const FRAC_PI_4: S = lit(std::f64::consts::FRAC_PI_4);
    pub const FRAC_1_PI: S = lit(std::f64::consts::FRAC_1_PI);
    pub const TAU: S = lit(std::f64::consts::TAU);
    pub const SQRT_2: S = lit(std::f64::consts::SQRT_2);
    pub const FRAC_1_SQRT_2: S = lit(std::f64::consts::FRAC_1_SQRT_2);
    pub const E: S = lit(std::f64::consts::E);
}
pub const EPSILON: S = lit(f64::EPSILON);
pub const INFINITY: S = lit(f64::INFINITY);
pub const NEG_INFINITY: S = lit(f64::NEG_INFINITY);
pub const NAN: S = lit(f64::NAN);

/// Possible signs of a normalized linear form: 1 = negative, 2 = zero, 4 = positive.
const NEG: u8 = 1;
const ZERO: u8 = 2;
const POS: u8 = 4;

/// Decide whether the sign of `l` is in `query`, branching if undetermined.
/// `conc` is the concrete sign of `l`, when it is known without evaluating `l`.
pub(crate) fn sign_in(l: Lin, query: u8, conc: Option<Ordering>) -> bool {
    if l.is_const() {
        let s = match l.c.sign() {
            -1 => NEG,
            0 => ZERO,
            _ => POS,
        };
        return s & query != 0;
    }
    // normalize: leading coefficient 1 (flip the query when negative)
    let lead = l.t[0].1;
    let Some(inv) = lead.inv() else { panic_engine("inv".into()) };
    let Some(nl) = l.scale(inv) else { panic_engine("linear form overflow in branch".into()) };
    let mut q = query;
    if lead.n < 0 {
        q = (query & ZERO) | if query & NEG != 0 { POS } else { 0 } | if query & POS != 0 { NEG } else { 0 };
    }
    let (fm, cur_in, mask) = with(|a| {
        let mut mask = *a.known.get(&nl).unwrap_or(&7);
        let (lo, hi) = a.bounds(&nl);
        if let Some(lo) = lo {
            match lo.sign() {
                1 => mask &= POS,
                0 => mask &= POS | ZERO,
                _ => {}
            }
        }
        if let Some(hi) = hi {
            match hi.sign() {
                -1 => mask &= NEG,
                0 => mask &= NEG | ZERO,
                _ => {}
            }
        }
        if mask & q == mask {
            return (None, true, mask);
        }
        if mask & q == 0 {
            return (None, false, mask);
        }
        let s = match (a.eval_sign(&nl), conc) {
            (Some(s), _) => s,
            (None, Some(o)) => o as i8 as i32 * if lead.n < 0 { -1 } else { 1 },
            _ => panic_engine("cannot evaluate branch".into()),
        };
        let s = match s {
            -1 => NEG,
            0 => ZERO,
            _ => POS,
        };
        let inq = s & q != 0;
        // canonical formula for the queried sign set
        let f = match q & mask {
            m if m == NEG => atom(a, nl.clone(), Rel::Lt),
            m if m == NEG | ZERO => atom(a, nl.clone(), Rel::Le),
            m if m == ZERO => atom(a, nl.clone(), Rel::Eq),
            m if m == POS => !atom(a, nl.clone(), Rel::Le),
            m if m == POS | ZERO => !atom(a, nl.clone(), Rel::Lt),
            _ => !atom(a, nl.clone(), Rel::Eq),
        };
        (Some(f), inq, mask)
    });
    match fm {
        None => cur_in,
        Some(f) => {
            let taken = branch(f);
            debug_assert_eq!(taken, cur_in);
            let nm = if taken { mask & q } else { mask & !q };
            with(|a| a.known.insert(nl, nm));
            taken
        }
    }
}

fn diff(x: S, y: S) -> Lin {
    with(|a| {
        if a.moving {
            let d = a.moved(x, 1.0, y, -1.0);
            return a.lin_of(d).unwrap_or_else(|| Lin::konst(Rat::int(if d.v > 0.0 { 1 } else { -1 })));
        }
        let r = (|| a.lin_of(x)?.sub(&a.lin_of(y)?))();
        match r {
            Some(l) => l,
            None => panic_engine("linear form overflow".into()),
        }
    })
}

fn both_plain(x: S, y: S) -> bool {
    (x.id == 0 && y.id == 0) || !x.v.is_finite() || !y.v.is_finite()
}

impl PartialEq for S {
    fn eq(&self, o: &S) -> bool {
        if both_plain(*self, *o) {
            return self.v == o.v;
        }
        sign_in(diff(*self, *o), ZERO, self.v.partial_cmp(&o.v))
    }
}
impl PartialOrd for S {
    fn partial_cmp(&self, o: &S) -> Option<Ordering> {
        if both_plain(*self, *o) {
            return self.v.partial_cmp(&o.v);
        }
        let l = diff(*self, *o);
        if sign_in(l.clone(), NEG, self.v.partial_cmp(&o.v)) {
            Some(Ordering::Less)
        } else if sign_in(l, ZERO, self.v.partial_cmp(&o.v)) {
            Some(Ordering::Equal)
        } else {
            Some(Ordering::Greater)
        }
    }
    fn lt(&self, o: &S) -> bool {
        if both_plain(*self, *o) {
            return self.v < o.v;
        }
        sign_in(diff(*self, *o), NEG, self.v.partial_cmp(&o.v))
    }
    fn le(&self, o: &S) -> bool {
        if both_plain(*self, *o) {
            return self.v <= o.v;
        }
        sign_in(diff(*self, *o), NEG | ZERO, self.v.partial_cmp(&o.v))
    }
    fn gt(&self, o: &S) -> bool {
        if both_plain(*self, *o) {
            return self.v > o.v;
        }
        sign_in(diff(*self, *o), POS, self.v.partial_cmp(&o.v))
    }
    fn ge(&self, o: &S) -> bool {
        if both_plain(*self, *o) {
            return self.v >= o.v;
        }
        sign_in(diff(*self, *o), POS | ZERO, self.v.partial_cmp(&o.v))
    }
}

impl std::fmt::Debug for S {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:?}", self.v)
    }
}
impl std::fmt::Display for S {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.v)
    }
}
impl std::fmt::LowerExp for S {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:e}", self.v)
    }
}
impl std::str::FromStr for S {
    type Err = std::num::ParseFloatError;
    fn from_str(s: &str) -> Result<S, Self::Err> {
        s.parse().map(lit)
    }
}
impl Default for S {
    fn default() -> S {
        lit(0.0)
    }
}
macro_rules! from_int {
    ($($t:ty)*) => {$(
        impl From<$t> for S { fn from(x: $t) -> S { lit(x as f64) } }
        impl CastTo<S> for $t { fn cast_to(self) -> S { lit(self as f64) } }
        impl CastTo<$t> for S { fn cast_to(self) -> $t { with(|a| if self.id != 0 { a.stats.concretized += 1 }); self.v as $t } }
    )*};
}
pub trait CastTo<U> {
    fn cast_to(self) -> U;
}
pub fn cast<T: CastTo<U>, U>(x: T) -> U {
    x.cast_to()
}
from_int!(i8 i16 i32 u8 u16 u32);
macro_rules! from_int2 {
    ($($t:ty)*) => {$(
        impl CastTo<S> for $t { fn cast_to(self) -> S { lit(self as f64) } }
        impl CastTo<$t> for S { fn cast_to(self) -> $t { with(|a| if self.id != 0 { a.stats.concretized += 1 }); self.v as $t } }
    )*};
}
from_int2!(usize isize i64 u64);
macro_rules! int_int {
    ($($a:ty => $($b:ty)*;)*) => {$($(
        impl CastTo<$b> for $a { fn cast_to(self) -> $b { self as $b } }
    )*)*};
}
int_int! {
    usize => usize isize u8 u16 u32 u64 i8 i16 i32 i64;
    isize => usize isize u8 u16 u32 u64 i8 i16 i32 i64;
    u8 => usize isize u8 u16 u32 u64 i8 i16 i32 i64;
    u16 => usize isize u8 u16 u32 u64 i8 i16 i32 i64;
    u32 => usize isize u8 u16 u32 u64 i8 i16 i32 i64;
    u64 => usize isize u8 u16 u32 u64 i8 i16 i32 i64;
    i8 => usize isize u8 u16 u32 u64 i8 i16 i32 i64;
    i16 => usize isize u8 u16 u32 u64 i8 i16 i32 i64;
    i32 => usize isize u8 u16 u32 u64 i8 i16 i32 i64;
    i64 => usize isize u8 u16 u32 u64 i8 i16 i32 i64;
}
impl CastTo<S> for S {
    fn cast_to(self) -> S {
        self
    }
}
impl CastTo<f32> for S {
    fn cast_to(self) -> f32 {
        self.v as f32
    }
}
impl CastTo<S> for f32 {
    fn cast_to(self) -> S {
        lit(self as f64)
    }
}
impl CastTo<S> for bool {
    fn cast_to(self) -> S {
        lit(self as u8 as f64)
    }
}
impl CastTo<usize> for bool {
    fn cast_to(self) -> usize {
        self as usize
    }
}
impl CastTo<i32> for bool {
    fn cast_to(self) -> i32 {
        self as i32
    }
}
impl From<f32> for S {
    fn from(x: f32) -> S {
        lit(x as f64)
    }
}

// ---- arithmetic -------------------------------------------------------------

fn is_lit(s: S) -> bool {
    s.id == 0
}

fn add(x: S, y: S) -> S {
    let v = x.v + y.v;
    if (is_lit(x) && is_lit(y)) || !x.v.is_finite() || !y.v.is_finite() {
        return lit(v);
    }
    if is_lit(y) && y.v == 0.0 {
        return x;
    }
    if is_lit(x) && x.v == 0.0 {
        return y;
    }
    with(|a| {
        if a.moving {
            return a.moved(x, 1.0, y, 1.0);
        }
        let l = (|| a.lin_of(x)?.add(&a.lin_of(y)?))();
        match l {
            Some(l) => a.rounded(l, v),
            None => {
                a.stats.overflow += 1;
                a.nl("add", &[x, y], None, None, v)
            }
        }
    })
}
fn neg(x: S) -> S {
    if is_lit(x) {
        return lit(-x.v);
    }
    with(|a| {
        if a.moving {
            return a.moved(x, -1.0, lit(0.0), 0.0);
        }
        let l = a.lin_of(x).unwrap().scale(Rat::int(-1));
        match l {
            Some(l) => {
                // negation is always exact
                if l.t.len() == 1 && l.c.is_zero() || a.always_exact(&l) {
                    a.node(l, -x.v)
                } else {
                    a.nl("neg", &[x], None, None, -x.v)
                }
            }
            None => panic_engine("neg overflow".into()),
        }
    })
}
fn mulb(a: (Option<Rat>, Option<Rat>), b: (Option<Rat>, Option<Rat>)) -> (Option<Rat>, Option<Rat>) {
    let r = (|| {
        let ps = [a.0?.mul(b.0?)?, a.0?.mul(b.1?)?, a.1?.mul(b.0?)?, a.1?.mul(b.1?)?];
        let mut lo = ps[0];
        let mut hi = ps[0];
        for p in ps {
            lo = lo.min(p)?;
            hi = hi.max(p)?;
        }
        Some((lo, hi))
    })();
    let (lo, hi) = match r {
        Some(x) => x,
        None => {
            // keep the sign information if we can
            let sg = |x: (Option<Rat>, Option<Rat>)| {
                if x.0.is_some_and(|l| l.sign() >= 0) {
                    1
                } else if x.1.is_some_and(|h| h.sign() <= 0) {
                    -1
                } else {
                    0
                }
            };
            return match sg(a) * sg(b) {
                1 => (Some(Rat::ZERO), None),
                -1 => (None, Some(Rat::ZERO)),
                _ => (None, None),
            };
        }
    };
    let f = |x: Rat, up: bool| {
        if x.is_zero() {
            return Some(x);
        }
        let a = x.approx();
        Rat::from_f64(if up { next_up(a) } else { next_down(a) })
    };
    (f(lo, false), f(hi, true))
}
fn mul(x: S, y: S) -> S {
    let v = x.v * y.v;
    if (is_lit(x) && is_lit(y)) || !x.v.is_finite() || !y.v.is_finite() {
        if !is_lit(x) && !y.v.is_finite() && !y.v.is_nan() {
            // sym * inf: sign (or zero) of sym matters
            let _ = x.partial_cmp(&lit(0.0));
        }
        if !is_lit(y) && !x.v.is_finite() && !x.v.is_nan() {
            let _ = y.partial_cmp(&lit(0.0));
        }
        return lit(v);
    }
    let (k, z) = if is_lit(x) {
        (x, y)
    } else if is_lit(y) {
        (y, x)
    } else {
        return with(|a| {
            let (bx, by) = (a.sbounds(x), a.sbounds(y));
            let (mut lo, hi) = mulb(bx, by);
            if x.id == y.id && lo.map_or(true, |l| l.sign() < 0) {
                lo = Some(Rat::ZERO);
            }
            let (p, q) = if x.id <= y.id { (x, y) } else { (y, x) };
            a.nl("mul", &[p, q], lo, hi, v)
        });
    };
    if k.v == 0.0 {
        return lit(0.0);
    }
    if k.v == 1.0 {
        return z;
    }
    with(|a| {
        if a.moving {
            return a.moved(z, k.v, lit(0.0), 0.0);
        }
        let l = (|| a.lin_of(z)?.scale(Rat::from_f64(k.v)?))();
        match l {
            Some(l) => a.rounded(l, v),
            None => {
                a.stats.overflow += 1;
                let (lo, hi) = mulb((Rat::from_f64(k.v), Rat::from_f64(k.v)), a.sbounds(z));
                a.nl("mulk", &[k, z], lo, hi, v)
            }
        }
    })
}
fn div(x: S, y: S) -> S {
    let v = x.v / y.v;
    if (is_lit(x) && is_lit(y)) || x.v.is_nan() || y.v.is_nan() {
        return lit(v);
    }
    if is_lit(y) {
        if !y.v.is_finite() {
            return lit(v);
        }
        if y.v == 0.0 {
            let _ = x.partial_cmp(&lit(0.0));
            return lit(v);
        }
        if y.v == 1.0 {
            return x;
        }
        return with(|a| {
            if a.moving {
                return a.moved(x, 1.0 / y.v, lit(0.0), 0.0);
            }
            let l = (|| a.lin_of(x)?.scale(Rat::from_f64(y.v)?.inv()?))();
            match l {
                Some(l) => a.rounded(l, v),
                None => {
                    a.stats.overflow += 1;
                    a.nl("divk", &[x, y], None, None, v)
                }
            }
        });
    }
    // symbolic divisor
    let c = y.partial_cmp(&lit(0.0));
    if c == Some(Ordering::Equal) {
        let _ = x.partial_cmp(&lit(0.0));
        return lit(v);
    }
    if !x.v.is_finite() {
        return lit(v);
    }
    if is_lit(x) && x.v == 0.0 {
        return lit(0.0);
    }
    with(|a| {
        let (Some(lx), Some(ly)) = (a.lin_of(x), a.lin_of(y)) else { panic_engine("div overflow".into()) };
        if !lx.is_const() && lx.t.len() == ly.t.len() {
            // x == k*y ?
            let r = (|| {
                let k = lx.t[0].1.mul(ly.t[0].1.inv()?)?;
                let s = ly.scale(k)?;
                if s == lx {
                    Some(k)
                } else {
                    None
                }
            })();
            if r.is_some() {
                return lit(v);
            }
        }
        a.nl("div", &[x, y], None, None, v)
    })
}

macro_rules! bin {
    ($tr:ident $m:ident $f:ident $tra:ident $ma:ident) => {
        impl std::ops::$tr for S {
            type Output = S;
            fn $m(self, o: S) -> S {
                $f(self, o)
            }
        }
        impl std::ops::$tr<&S> for S {
            type Output = S;
            fn $m(self, o: &S) -> S {
                $f(self, *o)
            }
        }
        impl std::ops::$tr<S> for &S {
            type Output = S;
            fn $m(self, o: S) -> S {
                $f(*self, o)
            }
        }
        impl std::ops::$tr<&S> for &S {
            type Output = S;
            fn $m(self, o: &S) -> S {
                $f(*self, *o)
            }
        }
        impl std::ops::$tra for S {
            fn $ma(&mut self, o: S) {
                *self = $f(*self, o)
            }
        }
        impl std::ops::$tra<&S> for S {
            fn $ma(&mut self, o: &S) {
                *self = $f(*self, *o)
            }
        }
    };
}
fn sub(x: S, y: S) -> S {
    let v = x.v - y.v;
    if (is_lit(x) && is_lit(y)) || !x.v.is_finite() || !y.v.is_finite() {
        return lit(v);
    }
    if is_lit(y) && y.v == 0.0 {
        return x;
    }
    with(|a| {
        if a.moving {
            return a.moved(x, 1.0, y, -1.0);
        }
        let l = (|| a.lin_of(x)?.sub(&a.lin_of(y)?))();
        match l {
            Some(l) => a.rounded(l, v),
            None => {
                a.stats.overflow += 1;
                a.nl("sub", &[x, y], None, None, v)
            }
        }
    })
}
fn rem(x: S, y: S) -> S {
    let v = x.v % y.v;
    if is_lit(x) && is_lit(y) {
        return lit(v);
    }
    with(|a| a.nl("rem", &[x, y], None, None, v))
}
bin!(Add add add AddAssign add_assign);
bin!(Sub sub sub SubAssign sub_assign);
bin!(Mul mul mul MulAssign mul_assign);
bin!(Div div div DivAssign div_assign);
bin!(Rem rem rem RemAssign rem_assign);
impl std::ops::Neg for S {
    type Output = S;
    fn neg(self) -> S {
        neg(self)
    }
}
impl std::ops::Neg for &S {
    type Output = S;
    fn neg(self) -> S {
        neg(*self)
    }
}
impl std::iter::Sum for S {
    fn sum<I: Iterator<Item = S>>(i: I) -> S {
        i.fold(lit(0.0), |a, b| a + b)
    }
}
impl<'a> std::iter::Sum<&'a S> for S {
    fn sum<I: Iterator<Item = &'a S>>(i: I) -> S {
        i.fold(lit(0.0), |a, b| a + *b)
    }
}
impl std::iter::Product for S {
    fn product<I: Iterator<Item = S>>(i: I) -> S {
        i.fold(lit(1.0), |a, b| a * b)
    }
}

fn nl1(op: &'static str, x: S, v: f64, lo: Option<f64>, hi: Option<f64>) -> S {
    if is_lit(x) || !x.v.is_finite() || !v.is_finite() {
        return lit(v);
    }
    with(|a| a.nl(op, &[x], lo.and_then(Rat::from_f64), hi.and_then(Rat::from_f64), v))
}

#[allow(non_snake_case)]
impl S {
    pub const EPSILON: S = lit(f64::EPSILON);
    pub const INFINITY: S = lit(f64::INFINITY);
    pub const NEG_INFINITY: S = lit(f64::NEG_INFINITY);
    pub const NAN: S = lit(f64::NAN);
    pub const MAX: S = lit(f64::MAX);
    pub const MIN: S = lit(f64::MIN);
    pub const MIN_POSITIVE: S = lit(f64::MIN_POSITIVE);

    pub const fn value(self) -> f64 {
        self.v
    }
    pub fn is_symbolic(self) -> bool {
        self.id != 0
    }
    pub fn is_nan(self) -> bool {
        self.v.is_nan()
    }
    pub fn is_finite(self) -> bool {
        self.v.is_finite()
    }
    pub fn is_infinite(self) -> bool {
        self.v.is_infinite()
    }
    pub fn abs(self) -> S {
        if is_lit(self) {
            return lit(self.v.abs());
        }
        if self < lit(0.0) {
            -self
        } else {
            self
        }
    }
    pub fn max(self, o: S) -> S {
        if is_lit(self) && is_lit(o) {
            return lit(self.v.max(o.v));
        }
        if self.v.is_nan() {
            return o;
        }
        if o.v.is_nan() {
            return self;
        }
        if self < o {
            o
        } else {
            self
        }
    }
    pub fn min(self, o: S) -> S {
        if is_lit(self) && is_lit(o) {
            return lit(self.v.min(o.v));
        }
        if self.v.is_nan() {
            return o;
        }
        if o.v.is_nan() {
            return self;
        }
        if o < self {
            o
        } else {
            self
        }
    }
    pub fn clamp(self, lo: S, hi: S) -> S {
        assert!(lo <= hi, "min > max, or either was NaN. min = {lo:?}, max = {hi:?}");
        if self < lo {
            lo
        } else if self > hi {
            hi
        } else {
            self
        }
    }
    pub fn signum(self) -> S {
        if is_lit(self) {
            return lit(self.v.signum());
        }
        if self > lit(0.0) {
            lit(1.0)
        } else if self < lit(0.0) {
            lit(-1.0)
        } else {
            lit(self.v.signum())
        }
    }
    pub fn is_sign_negative(self) -> bool {
        if is_lit(self) {
            return self.v.is_sign_negative();
        }
        if self == lit(0.0) {
            self.v.is_sign_negative()
        } else {
            self < lit(0.0)
        }
    }
    pub fn is_sign_positive(self) -> bool {
        !self.is_sign_negative()
    }
    pub fn copysign(self, s: S) -> S {
        let m = self.abs();
        if s.is_sign_negative() {
            -m
        } else {
            m
        }
    }
    pub fn recip(self) -> S {
        lit(1.0) / self
    }
    pub fn sqrt(self) -> S {
        if is_lit(self) {
            return lit(self.v.sqrt());
        }
        if self < lit(0.0) {
            return lit(f64::NAN);
        }
        if self == lit(0.0) {
            return lit(0.0);
        }
        // sqrt(RN(a*a)) == |a| in binary floating point (barring under- and overflow)
        let sq = with(|a| {
            let l = a.lin_of(self)?;
            if l.t.len() != 1 || !l.c.is_zero() || l.t[0].1 != Rat::ONE {
                return None;
            }
            match &a.vars[l.t[0].0 as usize].def {
                Def::Nl("mul", xs) if xs[0] == xs[1] => {
                    let b = xs[0].clone();
                    let x = a.eval(&b)?.exact_f64()?;
                    if x.abs() > 1e-150 && x.abs() < 1e150 {
                        Some(a.node(b, x))
                    } else {
                        None
                    }
                }
                _ => None,
            }
        });
        if let Some(b) = sq {
            return b.abs();
        }
        nl1("sqrt", self, self.v.sqrt(), Some(0.0), None)
    }
    pub fn cbrt(self) -> S {
        nl1("cbrt", self, self.v.cbrt(), None, None)
    }
    pub fn powi(self, n: i32) -> S {
        if is_lit(self) {
            return lit(self.v.powi(n));
        }
        match n {
            0 => lit(1.0),
            1 => self,
            2 => self * self,
            3 => self * self * self,
            _ => nl1("powi", self, self.v.powi(n), None, None),
        }
    }
    pub fn powf(self, n: S) -> S {
        if is_lit(self) && is_lit(n) {
            return lit(self.v.powf(n.v));
        }
        with(|a| a.nl("powf", &[self, n], None, None, self.v.powf(n.v)))
    }
    pub fn hypot(self, o: S) -> S {
        if is_lit(self) && is_lit(o) {
            return lit(self.v.hypot(o.v));
        }
        with(|a| a.nl("hypot", &[self, o], Some(Rat::ZERO), None, self.v.hypot(o.v)))
    }
    pub fn mul_add(self, b: S, c: S) -> S {
        let v = self.v.mul_add(b.v, c.v);
        if is_lit(self) && is_lit(b) && is_lit(c) {
            return lit(v);
        }
        if with(|a| a.moving) {
            return self * b + c;
        }
        with(|a| {
            let l = if is_lit(self) {
                (|| a.lin_of(b)?.scale(Rat::from_f64(self.v)?)?.add(&a.lin_of(c)?))()
            } else if is_lit(b) {
                (|| a.lin_of(self)?.scale(Rat::from_f64(b.v)?)?.add(&a.lin_of(c)?))()
            } else {
                None
            };
            match l {
                Some(l) => a.rounded(l, v),
                None => a.nl("fma", &[self, b, c], None, None, v),
            }
        })
    }
    pub fn sin(self) -> S {
        nl1("sin", self, self.v.sin(), Some(-1.0), Some(1.0))
    }
    pub fn cos(self) -> S {
        nl1("cos", self, self.v.cos(), Some(-1.0), Some(1.0))
    }
    pub fn tan(self) -> S {
        nl1("tan", self, self.v.tan(), None, None)
    }
    pub fn sin_cos(self) -> (S, S) {
        (self.sin(), self.cos())
    }
    pub fn acos(self) -> S {
        nl1("acos", self, self.v.acos(), None, None)
    }
    pub fn asin(self) -> S {
        nl1("asin", self, self.v.asin(), None, None)
    }
    pub fn atan(self) -> S {
        nl1("atan", self, self.v.atan(), None, None)
    }
    pub fn atan2(self, o: S) -> S {
        if is_lit(self) && is_lit(o) {
            return lit(self.v.atan2(o.v));
        }
        with(|a| a.nl("atan2", &[self, o], None, None, self.v.atan2(o.v)))
    }
    pub fn ln(self) -> S {
        nl1("ln", self, self.v.ln(), None, None)
    }
    pub fn ln_1p(self) -> S {
        nl1("ln1p", self, self.v.ln_1p(), None, None)
    }
    pub fn log2(self) -> S {
        nl1("log2", self, self.v.log2(), None, None)
    }
    pub fn log10(self) -> S {
        nl1("log10", self, self.v.log10(), None, None)
    }
    pub fn exp(self) -> S {
        nl1("exp", self, self.v.exp(), None, None)
    }
    pub fn exp2(self) -> S {
        nl1("exp2", self, self.v.exp2(), None, None)
    }
    pub fn floor(self) -> S {
        nl1("floor", self, self.v.floor(), None, None)
    }
    pub fn ceil(self) -> S {
        nl1("ceil", self, self.v.ceil(), None, None)
    }
    pub fn round(self) -> S {
        nl1("round", self, self.v.round(), None, None)
    }
    pub fn trunc(self) -> S {
        nl1("trunc", self, self.v.trunc(), None, None)
    }
    pub fn fract(self) -> S {
        nl1("fract", self, self.v.fract(), None, None)
    }
    pub fn rem_euclid(self, o: S) -> S {
        if is_lit(self) && is_lit(o) {
            return lit(self.v.rem_euclid(o.v));
        }
        with(|a| a.nl("rem_euclid", &[self, o], None, None, self.v.rem_euclid(o.v)))
    }
    pub fn to_radians(self) -> S {
        nl1("rad", self, self.v.to_radians(), None, None)
    }
    pub fn to_degrees(self) -> S {
        nl1("deg", self, self.v.to_degrees(), None, None)
    }
    /// Only used for hashing.  Equality of keys is decided by `==`, so a constant
    /// hash is correct (and introduces no spurious branches).
    pub fn to_bits(self) -> u64 {
        0
    }
    pub fn total_cmp(&self, o: &S) -> Ordering {
        if both_plain(*self, *o) {
            return self.v.total_cmp(&o.v);
        }
        self.partial_cmp(o).unwrap()
    }
    pub fn from_bits(b: u64) -> S {
        lit(f64::from_bits(b))
    }
}
