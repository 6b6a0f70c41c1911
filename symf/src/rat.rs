//! Exact rationals over i128, with overflow detection.
use std::cmp::Ordering;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Rat {
    pub n: i128,
    pub d: i128,
}

fn gcd64(mut a: u64, mut b: u64) -> u64 {
    if a == 0 {
        return b;
    }
    if b == 0 {
        return a;
    }
    let s = (a | b).trailing_zeros();
    a >>= a.trailing_zeros();
    loop {
        b >>= b.trailing_zeros();
        if a > b {
            std::mem::swap(&mut a, &mut b);
        }
        b -= a;
        if b == 0 {
            return a << s;
        }
    }
}
fn gcd(mut a: u128, mut b: u128) -> u128 {
    if a == 1 || b == 1 {
        return 1;
    }
    if a == 0 {
        return b;
    }
    if b == 0 {
        return a;
    }
    // denominators are nearly always powers of two
    if a.is_power_of_two() || b.is_power_of_two() {
        return 1 << a.trailing_zeros().min(b.trailing_zeros());
    }
    if a >> 64 == 0 && b >> 64 == 0 {
        return gcd64(a as u64, b as u64) as u128;
    }
    while b != 0 {
        let t = a % b;
        a = b;
        b = t;
    }
    a
}

fn div(a: i128, g: i128) -> i128 {
    if g == 1 {
        a
    } else if (g as u128).is_power_of_two() {
        a >> g.trailing_zeros()
    } else {
        a / g
    }
}

impl Rat {
    pub const ZERO: Rat = Rat { n: 0, d: 1 };
    pub const ONE: Rat = Rat { n: 1, d: 1 };
    pub fn int(n: i128) -> Rat {
        Rat { n, d: 1 }
    }
    pub fn new(n: i128, d: i128) -> Option<Rat> {
        if d == 0 {
            return None;
        }
        if d == 1 {
            return Some(Rat { n, d });
        }
        let g = gcd(n.unsigned_abs(), d.unsigned_abs()).max(1);
        if g == 1 && d > 0 {
            return Some(Rat { n, d });
        }
        let s = if d < 0 { -1 } else { 1 };
        let n = n.checked_div(i128::try_from(g).ok()?)?.checked_mul(s)?;
        let d = d.checked_div(i128::try_from(g).ok()?)?.checked_mul(s)?;
        Some(Rat { n, d })
    }
    pub fn is_zero(self) -> bool {
        self.n == 0
    }
    pub fn add(self, o: Rat) -> Option<Rat> {
        if self.d == o.d {
            return Rat::new(self.n.checked_add(o.n)?, self.d);
        }
        let g = gcd(self.d as u128, o.d as u128) as i128;
        let a = self.n.checked_mul(o.d / g)?;
        let b = o.n.checked_mul(self.d / g)?;
        Rat::new(a.checked_add(b)?, self.d.checked_mul(o.d / g)?)
    }
    pub fn neg(self) -> Rat {
        Rat { n: -self.n, d: self.d }
    }
    pub fn sub(self, o: Rat) -> Option<Rat> {
        self.add(o.neg())
    }
    pub fn mul(self, o: Rat) -> Option<Rat> {
        if self.n == 0 || o.n == 0 {
            return Some(Rat::ZERO);
        }
        if self.d == 1 && o.d == 1 {
            return Some(Rat { n: self.n.checked_mul(o.n)?, d: 1 });
        }
        let g1 = gcd(self.n.unsigned_abs(), o.d as u128) as i128;
        let g2 = gcd(o.n.unsigned_abs(), self.d as u128) as i128;
        // already in lowest terms
        Some(Rat { n: div(self.n, g1).checked_mul(div(o.n, g2))?, d: div(self.d, g2).checked_mul(div(o.d, g1))? })
    }
    pub fn inv(self) -> Option<Rat> {
        Rat::new(self.d, self.n)
    }
    pub fn sign(self) -> i32 {
        self.n.signum() as i32
    }
    pub fn cmp(self, o: Rat) -> Option<Ordering> {
        Some(self.sub(o)?.sign().cmp(&0))
    }
    pub fn abs(self) -> Rat {
        Rat { n: self.n.abs(), d: self.d }
    }
    /// Exact conversion from a finite float, if it fits.
    pub fn from_f64(x: f64) -> Option<Rat> {
        if !x.is_finite() {
            return None;
        }
        if x == 0.0 {
            return Some(Rat::ZERO);
        }
        let b = x.to_bits();
        let s: i128 = if b >> 63 == 1 { -1 } else { 1 };
        let e = ((b >> 52) & 0x7ff) as i32;
        let m = (b & ((1u64 << 52) - 1)) as i128;
        let (mut m, mut e) = if e == 0 { (m, -1074) } else { (m | (1 << 52), e - 1075) };
        while m & 1 == 0 {
            m >>= 1;
            e += 1;
        }
        if e >= 0 {
            if e > 70 {
                return None;
            }
            Some(Rat { n: s * (m << e), d: 1 })
        } else {
            if -e > 120 {
                return None;
            }
            Some(Rat { n: s * m, d: 1i128 << (-e) })
        }
    }
    /// log2 of the denominator when it is a power of two.
    pub fn den_log2(self) -> Option<i32> {
        if (self.d as u128).is_power_of_two() {
            Some(self.d.trailing_zeros() as i32)
        } else {
            None
        }
    }
    /// Largest e with self = odd * 2^e (dyadic only).
    pub fn gran(self) -> Option<i32> {
        let dl = self.den_log2()?;
        if self.n == 0 {
            return Some(i32::MAX);
        }
        Some(self.n.trailing_zeros() as i32 - dl)
    }
    pub fn is_pow2(self) -> bool {
        self.n != 0 && self.n.unsigned_abs().is_power_of_two() && (self.d as u128).is_power_of_two()
    }
    /// Approximate value (only used for reporting and coarse magnitude).
    pub fn approx(self) -> f64 {
        self.n as f64 / self.d as f64
    }
    /// Correctly rounded f64, when it is exactly representable.
    pub fn exact_f64(self) -> Option<f64> {
        let x = self.approx();
        let r = Rat::from_f64(x)?;
        if r == self {
            Some(x)
        } else {
            None
        }
    }
    pub fn pow2(e: i32) -> Option<Rat> {
        if e >= 0 {
            if e > 120 {
                return None;
            }
            Some(Rat { n: 1i128 << e, d: 1 })
        } else {
            if -e > 120 {
                return None;
            }
            Some(Rat { n: 1, d: 1i128 << (-e) })
        }
    }
    pub fn min(self, o: Rat) -> Option<Rat> {
        Some(if self.cmp(o)? == Ordering::Less { self } else { o })
    }
    pub fn max(self, o: Rat) -> Option<Rat> {
        Some(if self.cmp(o)? == Ordering::Greater { self } else { o })
    }
}

// ---- exact signs when the fixed-width numbers overflow ------------------------------------------

type Mag = Vec<u32>;

fn mag(mut x: u128) -> Mag {
    let mut v = vec![];
    while x != 0 {
        v.push(x as u32);
        x >>= 32;
    }
    v
}
fn mcmp(a: &Mag, b: &Mag) -> Ordering {
    a.len().cmp(&b.len()).then_with(|| a.iter().rev().cmp(b.iter().rev()))
}
fn mmul(a: &Mag, b: &Mag) -> Mag {
    let mut r = vec![0u32; a.len() + b.len()];
    for (i, x) in a.iter().enumerate() {
        let mut c = 0u64;
        for (j, y) in b.iter().enumerate() {
            let t = *x as u64 * *y as u64 + r[i + j] as u64 + c;
            r[i + j] = t as u32;
            c = t >> 32;
        }
        r[i + b.len()] = c as u32;
    }
    while r.last() == Some(&0) {
        r.pop();
    }
    r
}
fn madd(a: &Mag, b: &Mag) -> Mag {
    let (a, b) = if a.len() >= b.len() { (a, b) } else { (b, a) };
    let mut r = Vec::with_capacity(a.len() + 1);
    let mut c = 0u64;
    for i in 0..a.len() {
        let t = a[i] as u64 + *b.get(i).unwrap_or(&0) as u64 + c;
        r.push(t as u32);
        c = t >> 32;
    }
    if c != 0 {
        r.push(c as u32);
    }
    r
}
/// a - b with a >= b
fn msub(a: &Mag, b: &Mag) -> Mag {
    let mut r = Vec::with_capacity(a.len());
    let mut c = 0i64;
    for i in 0..a.len() {
        let mut t = a[i] as i64 - *b.get(i).unwrap_or(&0) as i64 - c;
        c = 0;
        if t < 0 {
            t += 1 << 32;
            c = 1;
        }
        r.push(t as u32);
    }
    while r.last() == Some(&0) {
        r.pop();
    }
    r
}

fn mshl(a: &Mag, k: u32) -> Mag {
    if a.is_empty() {
        return vec![];
    }
    let mut r = vec![0u32; (k / 32) as usize];
    r.extend(a);
    if k % 32 != 0 {
        r = mmul(&r, &mag(1 << (k % 32)));
    }
    r
}

/// The sign of a sum of products of a rational and a double.
pub fn sum_sign(terms: &[(Rat, f64)]) -> i32 {
    let dec = |x: f64| {
        let b = x.to_bits();
        let e = ((b >> 52) & 0x7ff) as i32;
        let m = b & ((1 << 52) - 1);
        if e == 0 {
            (m, -1074)
        } else {
            (m | (1 << 52), e - 1075)
        }
    };
    let e0 = terms.iter().filter(|t| t.1 != 0.0).map(|t| dec(t.1).1).min().unwrap_or(0);
    let (mut s, mut n, mut d): (i32, Mag, Mag) = (0, vec![], vec![1]);
    for (p, q) in terms {
        if p.is_zero() || *q == 0.0 {
            continue;
        }
        let ts = p.sign() * if *q < 0.0 { -1 } else { 1 };
        let (m, e) = dec(*q);
        let tn = mshl(&mmul(&mag(p.n.unsigned_abs()), &mag(m as u128)), (e - e0) as u32);
        let td = mag(p.d.unsigned_abs());
        let (x, y) = if td == d { (n.clone(), tn) } else { (mmul(&n, &td), mmul(&tn, &d)) };
        if td != d {
            d = mmul(&d, &td);
        }
        if s == ts || s == 0 {
            n = madd(&x, &y);
            s = ts;
        } else {
            match mcmp(&x, &y) {
                Ordering::Equal => {
                    n = vec![];
                    s = 0;
                }
                Ordering::Greater => n = msub(&x, &y),
                Ordering::Less => {
                    n = msub(&y, &x);
                    s = ts;
                }
            }
        }
    }
    s
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn signs() {
        let r = |n: i128, d: i128| Rat { n, d };
        let big = 1i128 << 100;
        assert_eq!(sum_sign(&[(r(big, 3), 3.0), (r(-big, 7), 7.0)]), 0);
        assert_eq!(sum_sign(&[(r(big, 3), 3.0), (r(-big, 7), 7.0), (r(1, big), 1e-300)]), 1);
        assert_eq!(sum_sign(&[(r(big, 3), 3.0), (r(-big, 7), 7.0), (r(-1, big), 5e-324)]), -1);
        assert_eq!(sum_sign(&[(r(5, 1), 1.0), (r(-7, 1), 1.0), (r(2, 1), 1.0), (r(-1, 9), 1.0)]), -1);
        assert_eq!(sum_sign(&[(r(1, 3), -1.0), (r(1, 1), 1.0 / 3.0)]), -1);
    }
}
