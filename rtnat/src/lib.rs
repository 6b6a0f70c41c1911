//! Native counterpart of the symbolic runtime: `S` is `f64`; a harness is run once,
//! on the concrete inputs of a counterexample, against the untransformed arithmetic.
pub mod rat;
pub use rat::Rat;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::ops::{Add, BitAnd, BitOr, BitXor, Mul, Neg, Not, Sub};

pub const IS_SYM: bool = false;
pub type S = f64;
pub type F = f64;
pub const fn lit(v: f64) -> f64 {
    v
}
pub fn val(s: f64) -> f64 {
    s
}
pub fn is_symbolic(_: f64) -> bool {
    false
}

#[derive(Default)]
struct St {
    inputs: BTreeMap<String, i64>,
    params: BTreeMap<String, i64>,
    failed: Vec<String>,
    only: Vec<String>,
    checks: u64,
    notes: Vec<String>,
}
thread_local! { static ST: RefCell<St> = RefCell::new(St::default()); }
struct PathEnd;
thread_local! { static LAST: RefCell<String> = const { RefCell::new(String::new()) }; }

fn raw(name: &str, lo: i64, hi: i64) -> i64 {
    ST.with(|s| {
        s.borrow().inputs.get(name).cloned().map(|n| n.clamp(lo, hi)).unwrap_or(if lo <= 0 && 0 <= hi { 0 } else { lo })
    })
}
pub fn input(name: &str, lo: i64, hi: i64, gran: i32) -> f64 {
    raw(name, lo, hi) as f64 * 2f64.powi(gran)
}
pub fn choose(name: &str, n: usize) -> usize {
    raw(name, 0, n as i64 - 1) as usize
}
pub fn param(name: &str, default: i64) -> i64 {
    ST.with(|s| s.borrow().params.get(name).cloned().unwrap_or(default))
}
pub fn branch(f: Fm) -> bool {
    f.val
}
pub fn assume(f: Fm) {
    if !f.val {
        std::panic::panic_any(PathEnd);
    }
}
pub fn check(label: &str, f: Fm) {
    ST.with(|s| {
        let mut s = s.borrow_mut();
        if !s.only.is_empty() && !s.only.iter().any(|l| l == label) {
            return;
        }
        s.checks += 1;
        if !f.val {
            s.failed.push(label.into())
        }
    })
}
pub fn cover(_: &str) {}
pub fn note(s: String) {
    ST.with(|x| x.borrow_mut().notes.push(s))
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Fm {
    val: bool,
}
impl Fm {
    pub fn as_const(&self) -> Option<bool> {
        Some(self.val)
    }
    pub fn concrete(&self) -> bool {
        self.val
    }
}
pub fn from_bool(val: bool) -> Fm {
    Fm { val }
}
pub fn tt() -> Fm {
    from_bool(true)
}
pub fn ff() -> Fm {
    from_bool(false)
}
pub fn lt(a: f64, b: f64) -> Fm {
    from_bool(a < b)
}
pub fn le(a: f64, b: f64) -> Fm {
    from_bool(a <= b)
}
pub fn gt(a: f64, b: f64) -> Fm {
    from_bool(a > b)
}
pub fn ge(a: f64, b: f64) -> Fm {
    from_bool(a >= b)
}
pub fn eq(a: f64, b: f64) -> Fm {
    from_bool(a == b)
}
pub fn ne(a: f64, b: f64) -> Fm {
    from_bool(a != b)
}
fn lin(ts: &[(f64, f64)]) -> Option<Rat> {
    let mut r = Rat::ZERO;
    for (k, s) in ts {
        r = r.add(Rat::from_f64(*k)?.mul(Rat::from_f64(*s)?)?)?;
    }
    Some(r)
}
fn sgn(ts: &[(f64, f64)]) -> i32 {
    match lin(ts) {
        Some(r) => r.sign(),
        None => {
            let x: f64 = ts.iter().map(|(k, s)| k * s).sum();
            if x < 0.0 {
                -1
            } else if x > 0.0 {
                1
            } else {
                0
            }
        }
    }
}
pub fn lin_lt(ts: &[(f64, f64)]) -> Fm {
    from_bool(sgn(ts) < 0)
}
pub fn lin_le(ts: &[(f64, f64)]) -> Fm {
    from_bool(sgn(ts) <= 0)
}
pub fn lin_eq(ts: &[(f64, f64)]) -> Fm {
    from_bool(sgn(ts) == 0)
}
pub fn all(fs: impl IntoIterator<Item = Fm>) -> Fm {
    from_bool(fs.into_iter().fold(true, |a, b| a & b.val))
}
pub fn any(fs: impl IntoIterator<Item = Fm>) -> Fm {
    from_bool(fs.into_iter().fold(false, |a, b| a | b.val))
}
impl Not for Fm {
    type Output = Fm;
    fn not(self) -> Fm {
        from_bool(!self.val)
    }
}
impl BitAnd for Fm {
    type Output = Fm;
    fn bitand(self, o: Fm) -> Fm {
        from_bool(self.val & o.val)
    }
}
impl BitOr for Fm {
    type Output = Fm;
    fn bitor(self, o: Fm) -> Fm {
        from_bool(self.val | o.val)
    }
}
impl BitXor for Fm {
    type Output = Fm;
    fn bitxor(self, o: Fm) -> Fm {
        from_bool(self.val ^ o.val)
    }
}
pub fn iff(a: Fm, b: Fm) -> Fm {
    !(a ^ b)
}
pub fn implies(a: Fm, b: Fm) -> Fm {
    !a | b
}
pub fn ite(c: Fm, a: Fm, b: Fm) -> Fm {
    (c & a) | (!c & b)
}

/// Exact rational value (falls back to f64 when out of range).
#[derive(Clone, Debug)]
pub struct Poly(Option<Rat>, f64);
impl Poly {
    pub fn k(x: f64) -> Poly {
        Poly(Rat::from_f64(x), x)
    }
    pub fn of(x: f64) -> Poly {
        Poly::k(x)
    }
    fn s(&self) -> i32 {
        match self.0 {
            Some(r) => r.sign(),
            None => {
                if self.1 < 0.0 {
                    -1
                } else if self.1 > 0.0 {
                    1
                } else {
                    0
                }
            }
        }
    }
    pub fn lt0(self) -> Fm {
        from_bool(self.s() < 0)
    }
    pub fn le0(self) -> Fm {
        from_bool(self.s() <= 0)
    }
    pub fn eq0(self) -> Fm {
        from_bool(self.s() == 0)
    }
    pub fn gt0(self) -> Fm {
        from_bool(self.s() > 0)
    }
    pub fn ge0(self) -> Fm {
        from_bool(self.s() >= 0)
    }
}
impl Add for Poly {
    type Output = Poly;
    fn add(self, o: Poly) -> Poly {
        Poly((|| self.0?.add(o.0?))(), self.1 + o.1)
    }
}
impl Sub for Poly {
    type Output = Poly;
    fn sub(self, o: Poly) -> Poly {
        Poly((|| self.0?.sub(o.0?))(), self.1 - o.1)
    }
}
impl Mul for Poly {
    type Output = Poly;
    fn mul(self, o: Poly) -> Poly {
        Poly((|| self.0?.mul(o.0?))(), self.1 * o.1)
    }
}
impl Neg for Poly {
    type Output = Poly;
    fn neg(self) -> Poly {
        Poly(self.0.map(|x| x.neg()), -self.1)
    }
}

pub type Harness = (&'static str, fn());

/// `BIN HARNESS --replay FILE [--param k=v]...`: FILE has `name value` lines.
/// Exit 1 when the property fails on these inputs, 0 when it holds, 2 when an assumption fails.
pub fn run_cli(list: &[Harness]) {
    let mut a = std::env::args().skip(1);
    let mut name = None;
    let mut file = None;
    while let Some(x) = a.next() {
        match x.as_str() {
            "--only" => ST.with(|s| s.borrow_mut().only = a.next().unwrap().split(',').map(String::from).collect()),
            "--replay" => file = a.next(),
            "--param" => {
                let kv = a.next().unwrap();
                let (k, v) = kv.split_once('=').unwrap();
                ST.with(|s| s.borrow_mut().params.insert(k.into(), v.parse().unwrap()));
            }
            _ => name = Some(x),
        }
    }
    let name = name.expect("harness");
    for l in std::fs::read_to_string(file.expect("--replay")).unwrap().lines() {
        if let Some((k, v)) = l.split_once(' ') {
            if let Ok(v) = v.trim().parse() {
                ST.with(|s| s.borrow_mut().inputs.insert(k.into(), v));
            }
        }
    }
    std::panic::set_hook(Box::new(|info| {
        let p = info.payload();
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = p
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        LAST.with(|x| *x.borrow_mut() = format!("{} at {loc}", msg.lines().next().unwrap_or("")));
    }));
    let f = list.iter().find(|x| x.0 == name).expect("unknown harness").1;
    let r = std::panic::catch_unwind(f);
    let (failed, checks, notes) = ST.with(|s| {
        let s = s.borrow();
        (s.failed.clone(), s.checks, s.notes.clone())
    });
    for n in notes {
        println!("note: {n}");
    }
    if !failed.is_empty() {
        println!("FAILED {}", failed.join(","));
        std::process::exit(1);
    }
    match r {
        Ok(()) => {
            println!("OK {checks} checks");
        }
        Err(e) if e.is::<PathEnd>() => {
            println!("ASSUMPTION-FALSE");
            std::process::exit(2);
        }
        Err(_) => {
            println!("FAILED panic: {}", LAST.with(|x| x.borrow().clone()));
            std::process::exit(1);
        }
    }
}
