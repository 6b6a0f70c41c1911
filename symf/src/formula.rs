//! Formulas over symbolic scalars (used for branches, assumptions and assertions).
use crate::*;
use std::ops::{Add, BitAnd, BitOr, BitXor, Mul, Neg, Not, Sub};
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Rel {
    Lt,
    Le,
    Eq,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub(crate) enum Node {
    Const(bool),
    /// lin REL 0
    Atom(Lin, Rel),
    /// poly REL 0
    PAtom(Poly, Rel),
    Not(Fm),
    And(Vec<Fm>),
    Or(Vec<Fm>),
    Xor(Fm, Fm),
}

/// A formula together with its truth value under the current concrete inputs.
#[derive(Clone, Debug)]
pub struct Fm {
    pub(crate) n: Rc<Node>,
    pub(crate) val: bool,
}
impl PartialEq for Fm {
    fn eq(&self, o: &Fm) -> bool {
        Rc::ptr_eq(&self.n, &o.n) || self.n == o.n
    }
}
impl Eq for Fm {}
impl std::hash::Hash for Fm {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        self.n.hash(h)
    }
}

/// Polynomial over input variables with rational coefficients.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Poly {
    /// sorted monomials
    pub(crate) m: Vec<(Vec<VarId>, Rat)>,
}

fn mk(n: Node, val: bool) -> Fm {
    Fm { n: Rc::new(n), val }
}

pub fn tt() -> Fm {
    mk(Node::Const(true), true)
}
pub fn ff() -> Fm {
    mk(Node::Const(false), false)
}
pub fn from_bool(b: bool) -> Fm {
    mk(Node::Const(b), b)
}

impl Fm {
    pub fn as_const(&self) -> Option<bool> {
        match &*self.n {
            Node::Const(b) => Some(*b),
            _ => None,
        }
    }
    pub fn concrete(&self) -> bool {
        self.val
    }
}

fn rel_val(s: i32, r: Rel) -> bool {
    match r {
        Rel::Lt => s < 0,
        Rel::Le => s <= 0,
        Rel::Eq => s == 0,
    }
}

pub(crate) fn atom(a: &mut Arena, l: Lin, rel: Rel) -> Fm {
    if l.is_const() {
        return from_bool(rel_val(l.c.sign(), rel));
    }
    let (lo, hi) = a.bounds(&l);
    let los = lo.map(|x| x.sign());
    let his = hi.map(|x| x.sign());
    match rel {
        Rel::Lt => {
            if his.is_some_and(|h| h < 0) {
                return tt();
            }
            if los.is_some_and(|h| h >= 0) {
                return ff();
            }
        }
        Rel::Le => {
            if his.is_some_and(|h| h <= 0) {
                return tt();
            }
            if los.is_some_and(|h| h > 0) {
                return ff();
            }
        }
        Rel::Eq => {
            if los.is_some_and(|h| h > 0) || his.is_some_and(|h| h < 0) {
                return ff();
            }
        }
    }
    let val = match a.eval_sign(&l) {
        Some(s) => rel_val(s, rel),
        None => panic_engine("cannot evaluate atom".into()),
    };
    mk(Node::Atom(l, rel), val)
}

fn cmp_fm(x: S, y: S, rel: Rel) -> Fm {
    if x.v.is_nan() || y.v.is_nan() {
        return ff();
    }
    if (x.id == 0 && y.id == 0) || !x.v.is_finite() || !y.v.is_finite() {
        let b = match rel {
            Rel::Lt => x.v < y.v,
            Rel::Le => x.v <= y.v,
            Rel::Eq => x.v == y.v,
        };
        return from_bool(b);
    }
    with(|a| {
        let (Some(lx), Some(ly)) = (a.lin_of(x), a.lin_of(y)) else {
            panic_engine("linear form overflow in comparison".into())
        };
        let Some(l) = lx.sub(&ly) else { panic_engine("linear form overflow in comparison".into()) };
        let f = atom(a, l, rel);
        // consistency between the exact symbolic comparison and the real one
        let real = match rel {
            Rel::Lt => x.v < y.v,
            Rel::Le => x.v <= y.v,
            Rel::Eq => x.v == y.v,
        };
        if real != f.val {
            panic_engine(format!("comparison mismatch {} {} {:?}", x.v, y.v, rel));
        }
        f
    })
}

pub fn lt(x: S, y: S) -> Fm {
    cmp_fm(x, y, Rel::Lt)
}
pub fn le(x: S, y: S) -> Fm {
    cmp_fm(x, y, Rel::Le)
}
pub fn gt(x: S, y: S) -> Fm {
    lt(y, x)
}
pub fn ge(x: S, y: S) -> Fm {
    le(y, x)
}
pub fn eq(x: S, y: S) -> Fm {
    cmp_fm(x, y, Rel::Eq)
}
pub fn ne(x: S, y: S) -> Fm {
    !eq(x, y)
}
/// Exact linear combination `sum k_i * s_i` compared with zero (no rounding).
pub fn lin_lt(ts: &[(f64, S)]) -> Fm {
    lin_rel(ts, Rel::Lt)
}
pub fn lin_le(ts: &[(f64, S)]) -> Fm {
    lin_rel(ts, Rel::Le)
}
pub fn lin_eq(ts: &[(f64, S)]) -> Fm {
    lin_rel(ts, Rel::Eq)
}
fn lin_rel(ts: &[(f64, S)], rel: Rel) -> Fm {
    with(|a| {
        let r = (|| {
            let mut l = Lin::konst(Rat::ZERO);
            for (k, s) in ts {
                l = l.add(&a.lin_of(*s)?.scale(Rat::from_f64(*k)?)?)?;
            }
            Some(l)
        })();
        match r {
            Some(l) => atom(a, l, rel),
            None => panic_engine("linear form overflow in oracle".into()),
        }
    })
}

pub fn all(fs: impl IntoIterator<Item = Fm>) -> Fm {
    let mut v = vec![];
    let mut val = true;
    for f in fs {
        val &= f.val;
        match f.as_const() {
            Some(true) => {}
            Some(false) => return ff(),
            None => v.push(f),
        }
    }
    match v.len() {
        0 => tt(),
        1 => v.pop().unwrap(),
        _ => mk(Node::And(v), val),
    }
}
pub fn any(fs: impl IntoIterator<Item = Fm>) -> Fm {
    let mut v = vec![];
    let mut val = false;
    for f in fs {
        val |= f.val;
        match f.as_const() {
            Some(false) => {}
            Some(true) => return tt(),
            None => v.push(f),
        }
    }
    match v.len() {
        0 => ff(),
        1 => v.pop().unwrap(),
        _ => mk(Node::Or(v), val),
    }
}
impl Not for Fm {
    type Output = Fm;
    fn not(self) -> Fm {
        match &*self.n {
            Node::Const(b) => from_bool(!b),
            Node::Not(x) => x.clone(),
            _ => {
                let v = !self.val;
                mk(Node::Not(self), v)
            }
        }
    }
}
impl BitAnd for Fm {
    type Output = Fm;
    fn bitand(self, o: Fm) -> Fm {
        all([self, o])
    }
}
impl BitOr for Fm {
    type Output = Fm;
    fn bitor(self, o: Fm) -> Fm {
        any([self, o])
    }
}
impl BitXor for Fm {
    type Output = Fm;
    fn bitxor(self, o: Fm) -> Fm {
        match (self.as_const(), o.as_const()) {
            (Some(a), Some(b)) => from_bool(a ^ b),
            (Some(false), _) => o,
            (Some(true), _) => !o,
            (_, Some(false)) => self,
            (_, Some(true)) => !self,
            _ => {
                let v = self.val ^ o.val;
                mk(Node::Xor(self, o), v)
            }
        }
    }
}
pub fn iff(a: Fm, b: Fm) -> Fm {
    !(a ^ b)
}
pub fn implies(a: Fm, b: Fm) -> Fm {
    !a | b
}
pub fn ite(c: Fm, a: Fm, b: Fm) -> Fm {
    (c.clone() & a) | (!c & b)
}

impl Poly {
    pub fn k(x: f64) -> Poly {
        let r = Rat::from_f64(x).unwrap();
        Poly { m: if r.is_zero() { vec![] } else { vec![(vec![], r)] } }
    }
    pub fn of(s: S) -> Poly {
        with(|a| {
            let Some(l) = a.lin_of(s) else { panic_engine("poly of non-finite".into()) };
            let mut m = vec![];
            if !l.c.is_zero() {
                m.push((vec![], l.c));
            }
            for (v, k) in &l.t {
                m.push((vec![*v], *k));
            }
            Poly { m }
        })
    }
    fn norm(mut m: Vec<(Vec<VarId>, Rat)>) -> Poly {
        m.sort_by(|a, b| a.0.cmp(&b.0));
        let mut out: Vec<(Vec<VarId>, Rat)> = vec![];
        for (v, k) in m {
            if let Some(l) = out.last_mut() {
                if l.0 == v {
                    match l.1.add(k) {
                        Some(s) => l.1 = s,
                        None => panic_engine("poly overflow".into()),
                    }
                    continue;
                }
            }
            out.push((v, k));
        }
        out.retain(|x| !x.1.is_zero());
        Poly { m: out }
    }
    fn rel(self, rel: Rel) -> Fm {
        with(|a| {
            if self.m.iter().all(|x| x.0.len() <= 1) {
                let mut l = Lin::konst(Rat::ZERO);
                for (v, k) in &self.m {
                    if v.is_empty() {
                        l.c = *k;
                    } else {
                        l.t.push((v[0], *k));
                    }
                }
                return atom(a, l, rel);
            }
            let mut r = Some(Rat::ZERO);
            for (v, k) in &self.m {
                let mut p = Some(*k);
                for x in v {
                    p = (|| p?.mul(a.vars[*x as usize].cur?))();
                }
                r = (|| r?.add(p?))();
            }
            let Some(r) = r else { panic_engine("poly eval overflow".into()) };
            mk(Node::PAtom(self, rel), rel_val(r.sign(), rel))
        })
    }
    pub fn lt0(self) -> Fm {
        self.rel(Rel::Lt)
    }
    pub fn le0(self) -> Fm {
        self.rel(Rel::Le)
    }
    pub fn eq0(self) -> Fm {
        self.rel(Rel::Eq)
    }
    pub fn gt0(self) -> Fm {
        (-self).rel(Rel::Lt)
    }
    pub fn ge0(self) -> Fm {
        (-self).rel(Rel::Le)
    }
}
impl Add for Poly {
    type Output = Poly;
    fn add(self, o: Poly) -> Poly {
        let mut m = self.m;
        m.extend(o.m);
        Poly::norm(m)
    }
}
impl Neg for Poly {
    type Output = Poly;
    fn neg(self) -> Poly {
        Poly { m: self.m.into_iter().map(|(v, k)| (v, k.neg())).collect() }
    }
}
impl Sub for Poly {
    type Output = Poly;
    fn sub(self, o: Poly) -> Poly {
        self + (-o)
    }
}
impl Mul for Poly {
    type Output = Poly;
    fn mul(self, o: Poly) -> Poly {
        let mut m = vec![];
        for (v, k) in &self.m {
            for (w, j) in &o.m {
                let mut x = v.clone();
                x.extend(w);
                x.sort();
                let Some(p) = k.mul(*j) else { panic_engine("poly overflow".into()) };
                m.push((x, p));
            }
        }
        Poly::norm(m)
    }
}
