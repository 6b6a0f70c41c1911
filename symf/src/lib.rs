//! Symbolic scalar `S` that stands in for `f64` in a transformed copy of the
//! code under test, plus the path explorer (`explore`) that drives z3.
//!
//! Every `S` carries the concrete double computed by the real IEEE operation
//! *and* an expression over symbolic inputs.  Expressions are linear forms over
//!   * input variables: integers scaled by a power of two ("grid" inputs), and
//!   * auxiliary real variables: `RN(e)` (the IEEE rounding of a linear form `e` that
//!     is not always representable) or the result of a non-linear operation.
//! An operation yields a plain linear form only if its result is exactly
//! representable for *all* admissible inputs (so no rounding can occur);
//! otherwise a rounding variable, constrained by the IEEE error bound, is made.
#![allow(static_mut_refs)]
pub mod rat;
mod z3;
mod explore;
mod ops;
mod cli;
mod formula;

pub use explore::*;
pub use formula::*;
pub use ops::*;
pub use cli::*;
pub use rat::Rat;

use std::cell::RefCell;
use std::hash::{BuildHasherDefault, Hasher};
use std::collections::HashMap;

pub const IS_SYM: bool = true;

/// The symbolic scalar.
#[derive(Clone, Copy)]
pub struct S {
    pub(crate) v: f64,
    /// 0 for constants, otherwise an index into the node arena.
    pub(crate) id: u32,
}

pub type F = S;

pub const fn lit(v: f64) -> S {
    S { v, id: 0 }
}

/// FxHash-style hasher.
#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Fx {
    #[inline]
    fn mix(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95);
    }
}
impl Hasher for Fx {
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut x = [0u8; 8];
            x[..c.len()].copy_from_slice(c);
            self.mix(u64::from_le_bytes(x));
        }
    }
    fn write_u8(&mut self, x: u8) {
        self.mix(x as u64)
    }
    fn write_u32(&mut self, x: u32) {
        self.mix(x as u64)
    }
    fn write_u64(&mut self, x: u64) {
        self.mix(x)
    }
    fn write_usize(&mut self, x: usize) {
        self.mix(x as u64)
    }
    fn write_u128(&mut self, x: u128) {
        self.mix(x as u64);
        self.mix((x >> 64) as u64);
    }
    fn write_i128(&mut self, x: i128) {
        self.write_u128(x as u128)
    }
    fn write_isize(&mut self, x: isize) {
        self.mix(x as u64)
    }
    fn finish(&self) -> u64 {
        self.0
    }
}
pub(crate) type FastMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;
pub(crate) type FastSet<K> = std::collections::HashSet<K, BuildHasherDefault<Fx>>;

pub(crate) type VarId = u32;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub(crate) struct Lin {
    pub c: Rat,
    pub t: Vec<(VarId, Rat)>,
}

impl Lin {
    pub fn konst(c: Rat) -> Lin {
        Lin { c, t: vec![] }
    }
    pub fn add(&self, o: &Lin) -> Option<Lin> {
        let mut t = Vec::with_capacity(self.t.len() + o.t.len());
        let (mut i, mut j) = (0, 0);
        while i < self.t.len() || j < o.t.len() {
            if j >= o.t.len() || (i < self.t.len() && self.t[i].0 < o.t[j].0) {
                t.push(self.t[i]);
                i += 1;
            } else if i >= self.t.len() || o.t[j].0 < self.t[i].0 {
                t.push(o.t[j]);
                j += 1;
            } else {
                let s = self.t[i].1.add(o.t[j].1)?;
                if !s.is_zero() {
                    t.push((self.t[i].0, s));
                }
                i += 1;
                j += 1;
            }
        }
        Some(Lin { c: self.c.add(o.c)?, t })
    }
    pub fn scale(&self, k: Rat) -> Option<Lin> {
        if k.is_zero() {
            return Some(Lin::konst(Rat::ZERO));
        }
        let mut t = Vec::with_capacity(self.t.len());
        for (v, c) in &self.t {
            t.push((*v, c.mul(k)?));
        }
        Some(Lin { c: self.c.mul(k)?, t })
    }
    pub fn sub(&self, o: &Lin) -> Option<Lin> {
        self.add(&o.scale(Rat::int(-1))?)
    }
    pub fn is_const(&self) -> bool {
        self.t.is_empty()
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub(crate) enum Def {
    /// rounding of a linear form
    Rn(Lin),
    /// opaque deterministic operation on linear forms
    Nl(&'static str, Vec<Lin>),
    /// free real (never used for branching on rounding)
    Input(String, i64, i64),
}

#[derive(Clone, Debug)]
pub(crate) struct Var {
    pub def: Def,
    pub is_int: bool,
    pub lo: Option<Rat>,
    pub hi: Option<Rat>,
    pub cur: Option<Rat>,
    /// the current value as a double (exact whenever a run has set it)
    pub cf: f64,
    pub name: String,
}

#[derive(Default)]
pub(crate) struct Arena {
    pub vars: Vec<Var>,
    pub var_map: FastMap<Def, VarId>,
    pub nodes: Vec<Lin>,
    pub node_map: FastMap<Lin, u32>,
    /// sign knowledge in the current run: normalized lin -> possible sign mask
    pub known: FastMap<Lin, u8>,
    pub run: Run,
    pub stats: OpStats,
    /// see `param("move")`
    pub moving: bool,
}

#[derive(Default, Clone, Debug)]
pub struct OpStats {
    pub rounded_ops: u64,
    pub nonlinear_ops: u64,
    pub concretized: u64,
    pub overflow: u64,
}

#[derive(Default)]
pub(crate) struct Run {
    pub assignment: HashMap<String, i64>,
    pub trace: Vec<Branch>,
    pub checks: Vec<(String, Fm)>,
    pub covers: std::collections::BTreeMap<String, u64>,
    pub used: Vec<(String, i64)>,
    pub active: bool,
    pub max_branches: usize,
    pub notes: Vec<String>,
}

#[derive(Clone)]
pub(crate) struct Branch {
    pub f: Fm,
    pub taken: bool,
}

thread_local! {
    pub(crate) static ARENA: RefCell<Arena> = RefCell::new(Arena::default());
}

pub(crate) fn with<R>(f: impl FnOnce(&mut Arena) -> R) -> R {
    ARENA.with(|a| f(&mut a.borrow_mut()))
}

impl Arena {
    pub fn lin_of(&self, s: S) -> Option<Lin> {
        if s.id == 0 {
            Some(Lin::konst(Rat::from_f64(s.v)?))
        } else {
            Some(self.nodes[s.id as usize - 1].clone())
        }
    }
    pub fn bounds(&self, l: &Lin) -> (Option<Rat>, Option<Rat>) {
        let mut lo = Some(l.c);
        let mut hi = Some(l.c);
        for (v, k) in &l.t {
            let var = &self.vars[*v as usize];
            let (a, b) = if k.n > 0 { (var.lo, var.hi) } else { (var.hi, var.lo) };
            lo = (|| lo?.add(a?.mul(*k)?))();
            hi = (|| hi?.add(b?.mul(*k)?))();
        }
        (lo, hi)
    }
    /// Is the value of `l` a double for every admissible input?
    pub fn always_exact(&self, l: &Lin) -> bool {
        if l.t.is_empty() {
            return l.c.exact_f64().is_some();
        }
        if l.t.len() == 1 && l.c.is_zero() && l.t[0].1.is_pow2() && !self.vars[l.t[0].0 as usize].is_int {
            return true;
        }
        let mut g = match l.c.gran() {
            Some(g) => g,
            None => return false,
        };
        for (v, k) in &l.t {
            if !self.vars[*v as usize].is_int {
                return false;
            }
            match k.gran() {
                Some(e) => g = g.min(e),
                None => return false,
            }
        }
        let (lo, hi) = self.bounds(l);
        let (Some(lo), Some(hi)) = (lo, hi) else { return false };
        let Some(m) = lo.abs().max(hi.abs()) else { return false };
        let Some(lim) = Rat::pow2(53 + g) else { return false };
        matches!(m.cmp(lim), Some(std::cmp::Ordering::Less | std::cmp::Ordering::Equal))
    }
    /// Arithmetic of the `move` families, where the only inputs translate a concrete drawing: a value
    /// is `c + sum k_i t_i` with `c` and `k_i` doubles.  `c` is rounded as in IEEE arithmetic
    /// (independently of the translation), coefficients next to an integer are that integer.
    pub fn moved(&mut self, x: S, kx: f64, y: S, ky: f64) -> S {
        let part = |a: &Arena, s: S| -> (f64, Vec<(VarId, f64)>) {
            if s.id == 0 {
                (s.v, vec![])
            } else {
                let l = &a.nodes[s.id as usize - 1];
                (l.c.approx(), l.t.iter().map(|(v, k)| (*v, k.approx())).collect())
            }
        };
        let (cx, tx) = part(self, x);
        let (cy, ty) = part(self, y);
        let mut c = cx * kx + cy * ky;
        let mut t: std::collections::BTreeMap<VarId, f64> = Default::default();
        for (v, k) in tx {
            *t.entry(v).or_insert(0.0) += k * kx;
        }
        for (v, k) in ty {
            *t.entry(v).or_insert(0.0) += k * ky;
        }
        for k in t.values_mut() {
            if (*k - k.round()).abs() < 1e-11 {
                *k = k.round();
            }
        }
        t.retain(|_, k| *k != 0.0);
        if t.is_empty() {
            return lit(c);
        }
        if c.abs() < 1e-18 {
            c = 0.0;
        }
        if !c.is_finite() {
            panic_engine("non-finite".into());
        }
        let v = c + t.iter().map(|(v, k)| self.vars[*v as usize].cf * k).sum::<f64>();
        let l = Lin { c: Rat::from_f64(c).unwrap(), t: t.into_iter().map(|(v, k)| (v, Rat::from_f64(k).unwrap())).collect() };
        self.node(l, v)
    }
    pub fn node(&mut self, l: Lin, v: f64) -> S {
        if l.t.is_empty() {
            return lit(v);
        }
        if self.run.active && !self.moving {
            // self check: the linear form must reproduce the concrete double
            if let Some(x) = self.eval(&l) {
                if Rat::from_f64(v) != Some(x) {
                    panic_engine(format!("symbolic/concrete mismatch: {} vs {v:e}", x.approx()));
                }
            }
        }
        if let Some(&i) = self.node_map.get(&l) {
            return S { v, id: i };
        }
        self.nodes.push(l.clone());
        let i = self.nodes.len() as u32;
        self.node_map.insert(l, i);
        S { v, id: i }
    }
    pub fn eval(&self, l: &Lin) -> Option<Rat> {
        let mut r = l.c;
        for (v, k) in &l.t {
            r = r.add(self.vars[*v as usize].cur?.mul(*k)?)?;
        }
        Some(r)
    }
    /// Exact sign of the current value.
    pub fn eval_sign(&self, l: &Lin) -> Option<i32> {
        if let Some(x) = self.eval(l) {
            return Some(x.sign());
        }
        let mut t = vec![(l.c, 1.0)];
        for (v, k) in &l.t {
            let x = self.vars[*v as usize].cf;
            if x.is_nan() {
                return None;
            }
            t.push((*k, x));
        }
        Some(rat::sum_sign(&t))
    }
    /// Result `v` of an operation whose exact value is `l`.
    pub fn rounded(&mut self, l: Lin, v: f64) -> S {
        if l.t.is_empty() {
            return lit(v);
        }
        if !v.is_finite() {
            panic_engine("overflow to non-finite value in a symbolic operation".into());
        }
        if self.always_exact(&l) {
            return self.node(l, v);
        }
        self.stats.rounded_ops += 1;
        let (lo, hi) = self.bounds(&l);
        let rn = |x: Option<Rat>, up: bool| -> Option<Rat> {
            // RN is monotone, so RN(lo) <= r <= RN(hi); widen by an ulp to be safe
            let a = x?.approx();
            let a = if up { next_up(a) } else { next_down(a) };
            Rat::from_f64(a)
        };
        let (rl, rh) = (rn(lo, false), rn(hi, true));
        self.fresh(Def::Rn(l), rl, rh, v)
    }
    pub fn fresh(&mut self, def: Def, lo: Option<Rat>, hi: Option<Rat>, v: f64) -> S {
        if !v.is_finite() {
            panic_engine("non-finite value in a symbolic operation".into());
        }
        let id = match self.var_map.get(&def) {
            Some(&i) => i,
            None => {
                let i = self.vars.len() as u32;
                self.vars.push(Var { def: def.clone(), is_int: false, lo, hi, cur: None, cf: f64::NAN, name: format!("r{i}") });
                self.var_map.insert(def, i);
                i
            }
        };
        self.vars[id as usize].cur = Rat::from_f64(v);
        self.vars[id as usize].cf = v;
        let l = Lin { c: Rat::ZERO, t: vec![(id, Rat::ONE)] };
        if let Some(&i) = self.node_map.get(&l) {
            return S { v, id: i };
        }
        self.nodes.push(l.clone());
        let i = self.nodes.len() as u32;
        self.node_map.insert(l, i);
        S { v, id: i }
    }
    pub fn nl(&mut self, op: &'static str, args: &[S], lo: Option<Rat>, hi: Option<Rat>, v: f64) -> S {
        self.stats.nonlinear_ops += 1;
        let mut ls = vec![];
        for a in args {
            match self.lin_of(*a) {
                Some(l) => ls.push(l),
                None => {
                    self.stats.overflow += 1;
                    panic_engine("linear form overflow".into());
                }
            }
        }
        self.fresh(Def::Nl(op, ls), lo, hi, v)
    }
    pub fn sbounds(&self, s: S) -> (Option<Rat>, Option<Rat>) {
        match self.lin_of(s) {
            Some(l) => self.bounds(&l),
            None => (None, None),
        }
    }
}

pub(crate) fn next_up(a: f64) -> f64 {
    a.next_up()
}
pub(crate) fn next_down(a: f64) -> f64 {
    a.next_down()
}

/// Panic payload: the engine cannot encode this path.
pub(crate) struct EngineLimit(pub String);
/// Panic payload: an assumption does not hold on this path.
pub(crate) struct PathEnd;

pub(crate) fn panic_engine(m: String) -> ! {
    std::panic::panic_any(EngineLimit(m))
}
