//! Systematic path exploration: every feasible branch outcome is decided by z3.
use crate::z3::*;
use crate::*;
use std::collections::{BTreeMap, HashMap};
use std::ffi::{CStr, CString};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::time::Instant;

/// The run in progress: when it began, and its inputs so far.
static WATCH: std::sync::Mutex<Option<(Instant, Vec<(String, i64)>)>> = std::sync::Mutex::new(None);

/// Ends the process when a single run of the code takes too long (or more than 6 GiB): prints its inputs, for a native run to decide.
fn watch(limit_s: u64) {
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_millis(500));
        let w = WATCH.lock().unwrap();
        if let Some((t, v)) = w.as_ref() {
            let pages = std::fs::read_to_string("/proc/self/statm").ok().and_then(|s| s.split(' ').nth(1)?.parse::<u64>().ok());
            if t.elapsed().as_secs() >= limit_s || pages.is_some_and(|p| p > 6 << 18) {
                let m: Vec<String> = v.iter().map(|(k, n)| format!("\"{k}\": {n}")).collect();
                println!("{{\"stuck\": {{{}}}}}", m.join(", "));
                std::process::exit(0);
            }
        }
    });
}

// ------------------------------------------------------------ harness interface

/// A grid input: an arbitrary integer in `lo..=hi`, times `2^gran`.
pub fn input(name: &str, lo: i64, hi: i64, gran: i32) -> S {
    let n = raw_input(name, lo, hi);
    with(|a| {
        let v = *a.var_map.get(&Def::Input(name.into(), lo, hi)).unwrap();
        let k = Rat::pow2(gran).unwrap();
        let l = Lin { c: Rat::ZERO, t: vec![(v, k)] };
        if !a.always_exact(&l) {
            panic_engine(format!("input {name} does not fit in 53 bits"));
        }
        let x = n as f64 * (2f64).powi(gran);
        a.node(l, x)
    })
}

fn raw_input(name: &str, lo: i64, hi: i64) -> i64 {
    with(|a| {
        let def = Def::Input(name.into(), lo, hi);
        let id = match a.var_map.get(&def) {
            Some(&i) => i,
            None => {
                let i = a.vars.len() as u32;
                a.vars.push(Var {
                    def: def.clone(),
                    is_int: true,
                    lo: Some(Rat::int(lo as i128)),
                    hi: Some(Rat::int(hi as i128)),
                    cur: None,
                    cf: f64::NAN,
                    name: name.into(),
                });
                a.var_map.insert(def, i);
                i
            }
        };
        let n = match a.run.assignment.get(name) {
            Some(&n) => n.clamp(lo, hi),
            None => {
                if lo <= 0 && 0 <= hi {
                    0
                } else {
                    lo
                }
            }
        };
        a.vars[id as usize].cur = Some(Rat::int(n as i128));
        a.vars[id as usize].cf = n as f64;
        if !a.run.used.iter().any(|(x, _)| x == name) {
            a.run.used.push((name.into(), n));
            if let Some(w) = WATCH.lock().unwrap().as_mut() {
                w.1.push((name.into(), n));
            }
        }
        n
    })
}

/// A symbolic choice among `0..n`: the solver explores every feasible value.
pub fn choose(name: &str, n: usize) -> usize {
    let _ = raw_input(name, 0, n as i64 - 1);
    let v = with(|a| *a.var_map.get(&Def::Input(name.into(), 0, n as i64 - 1)).unwrap());
    for i in 0..n - 1 {
        let l = Lin { c: Rat::int(-(i as i128)), t: vec![(v, Rat::ONE)] };
        if ops_sign_zero(l) {
            return i;
        }
    }
    n - 1
}
fn ops_sign_zero(l: Lin) -> bool {
    crate::ops::sign_in(l, 2, None)
}

/// Branch on a formula (used by stubs and assumptions).
pub fn branch(f: Fm) -> bool {
    if let Some(b) = f.as_const() {
        return b;
    }
    let (taken, over) = with(|a| {
        let t = f.val;
        a.run.trace.push(Branch { f: f.clone(), taken: t });
        (t, a.run.trace.len() > a.run.max_branches)
    });
    if over {
        panic_engine("branch budget of a single path exceeded".into());
    }
    taken
}

/// Restrict the exploration to inputs satisfying `f`.
pub fn assume(f: Fm) {
    if !branch(f) {
        std::panic::panic_any(PathEnd);
    }
}

/// The property: `f` must hold for all inputs that follow the current path.
pub fn check(label: &str, f: Fm) {
    if !crate::cli::label_on(label) {
        return;
    }
    if f.as_const() == Some(true) {
        with(|a| a.run.checks.push((label.into(), tt())));
        return;
    }
    with(|a| a.run.checks.push((label.into(), f)));
}

/// Reachability witness.
pub fn cover(label: &str) {
    with(|a| *a.run.covers.entry(label.into()).or_insert(0) += 1);
}
pub fn note(s: String) {
    with(|a| a.run.notes.push(s));
}

// ------------------------------------------------------------------- solver

struct Solv {
    c: Ctx,
    s: Solver,
    vars: FastMap<VarId, Ast>,
    asserted: FastSet<VarId>,
    levels: Vec<Vec<VarId>>,
    isort: Sort,
    rsort: Sort,
    pub queries: u64,
    pub time: f64,
    nra: bool,
    slow: f64,
    nums: FastMap<(Rat, bool), Ast>,
    lins: FastMap<Lin, Ast>,
    atoms: FastMap<(Lin, Rel), Ast>,
    mono: FastMap<Lin, Rc<Vec<Ast>>>,
}

extern "C" fn on_err(c: Ctx, e: std::os::raw::c_int) {
    unsafe {
        let m = CStr::from_ptr(Z3_get_error_msg(c, e)).to_string_lossy().to_string();
        eprintln!("z3 error: {m}");
        std::process::exit(4);
    }
}

impl Solv {
    fn new(timeout_ms: u32, nra: bool) -> Solv {
        unsafe {
            let cfg = Z3_mk_config();
            let c = Z3_mk_context(cfg);
            Z3_set_error_handler(c, Some(on_err));
            let s = if nra { Z3_mk_solver(c) } else { Z3_mk_simple_solver(c) };
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), timeout_ms);
            let k = CString::new("random_seed").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), 1);
            Z3_solver_set_params(c, s, p);
            Solv {
                c,
                s,
                vars: Default::default(),
                asserted: Default::default(),
                levels: vec![vec![]],
                isort: Z3_mk_int_sort(c),
                rsort: Z3_mk_real_sort(c),
                queries: 0,
                time: 0.0,
                nra,
                slow: 0.0,
                nums: Default::default(),
                lins: Default::default(),
                atoms: Default::default(),
                mono: Default::default(),
            }
        }
    }
    fn num(&mut self, r: Rat, real: bool) -> Ast {
        if let Some(a) = self.nums.get(&(r, real)) {
            return *a;
        }
        let a = self.num0(r, real);
        self.nums.insert((r, real), a);
        a
    }
    fn num0(&self, r: Rat, real: bool) -> Ast {
        let s = if r.d == 1 { format!("{}", r.n) } else { format!("{}/{}", r.n, r.d) };
        let s = CString::new(s).unwrap();
        unsafe { Z3_mk_numeral(self.c, s.as_ptr(), if real { self.rsort } else { self.isort }) }
    }
    fn var(&mut self, v: VarId) -> Ast {
        if let Some(a) = self.vars.get(&v) {
            return *a;
        }
        let (name, is_int) = with(|a| (a.vars[v as usize].name.clone(), a.vars[v as usize].is_int));
        let n = CString::new(format!("{name}#{v}")).unwrap();
        let x = unsafe {
            let sy = Z3_mk_string_symbol(self.c, n.as_ptr());
            Z3_mk_const(self.c, sy, if is_int { self.isort } else { self.rsort })
        };
        self.vars.insert(v, x);
        x
    }
    /// Make sure the definition (bounds, rounding constraint) of `v` is asserted.
    fn declare(&mut self, v: VarId) {
        if self.asserted.contains(&v) {
            return;
        }
        self.asserted.insert(v);
        self.levels.last_mut().unwrap().push(v);
        let var = with(|a| a.vars[v as usize].clone());
        let x = self.var(v);
        unsafe {
            if let Some(lo) = var.lo {
                let k = self.num(lo, !var.is_int);
                Z3_solver_assert(self.c, self.s, Z3_mk_ge(self.c, x, k));
            }
            if let Some(hi) = var.hi {
                let k = self.num(hi, !var.is_int);
                Z3_solver_assert(self.c, self.s, Z3_mk_le(self.c, x, k));
            }
        }
        match &var.def {
            Def::Input(..) => {}
            Def::Rn(l) => {
                // |x - l| <= max|l| * 2^-53 (+ tiny)
                let (lo, hi) = with(|a| a.bounds(l));
                self.mono_axioms(l);
                let d = (|| {
                    let m = lo?.abs().max(hi?.abs())?.approx();
                    Rat::from_f64(next_up(m * 2f64.powi(-53) + 1e-30))
                })();
                if let Some(d) = d {
                    let e = self.lin_real(l);
                    unsafe {
                        let up = Z3_mk_add(self.c, 2, [e, self.num(d, true)].as_ptr());
                        let dn = Z3_mk_add(self.c, 2, [e, self.num(d.neg(), true)].as_ptr());
                        Z3_solver_assert(self.c, self.s, Z3_mk_le(self.c, x, up));
                        Z3_solver_assert(self.c, self.s, Z3_mk_ge(self.c, x, dn));
                    }
                }
            }
            Def::Nl(op, args) => {
                self.nl_axioms(op, args, x);
                if self.nra && (*op == "mul" || *op == "div") {
                    // relative error 2^-53:   |x - a*b| <= 2^-53 |a*b|   (via two products)
                    let a = self.lin_real(&args[0]);
                    let b = self.lin_real(&args[1]);
                    unsafe {
                        let (p, q) = if *op == "mul" {
                            (x, Z3_mk_mul(self.c, 2, [a, b].as_ptr()))
                        } else {
                            (Z3_mk_mul(self.c, 2, [x, b].as_ptr()), a)
                        };
                        let u = self.num(Rat::pow2(-52).unwrap(), true);
                        let mu = self.num(Rat::pow2(-52).unwrap().neg(), true);
                        let uq = Z3_mk_mul(self.c, 2, [u, q].as_ptr());
                        let muq = Z3_mk_mul(self.c, 2, [mu, q].as_ptr());
                        let d = Z3_mk_add(self.c, 2, [p, Z3_mk_mul(self.c, 2, [self.num(Rat::int(-1), true), q].as_ptr())].as_ptr());
                        let z = self.num(Rat::ZERO, true);
                        // q>=0 -> -uq<=d<=uq ; q<0 -> uq<=d<=-uq
                        let pos = Z3_mk_and(
                            self.c,
                            3,
                            [Z3_mk_ge(self.c, q, z), Z3_mk_le(self.c, d, uq), Z3_mk_ge(self.c, d, muq)].as_ptr(),
                        );
                        let neg = Z3_mk_and(
                            self.c,
                            3,
                            [Z3_mk_lt(self.c, q, z), Z3_mk_le(self.c, d, muq), Z3_mk_ge(self.c, d, uq)].as_ptr(),
                        );
                        let f = Z3_mk_or(self.c, 2, [pos, neg].as_ptr());
                        Z3_solver_assert(self.c, self.s, f);
                    }
                }
            }
        }
    }
    /// Facts about IEEE products and quotients that are linear in the operands.
    fn nl_axioms(&mut self, op: &str, args: &[Lin], x: Ast) {
        if !(op == "mul" || op == "div") || args.len() != 2 {
            return;
        }
        // can the result underflow?  (operands on an integer grid cannot)
        let safe = with(|a| {
            let g = |l: &Lin| -> Option<i32> {
                let mut g = l.c.gran()?;
                for (v, k) in &l.t {
                    if !a.vars[*v as usize].is_int {
                        return None;
                    }
                    g = g.min(k.gran()?);
                }
                Some(g)
            };
            match (g(&args[0]), g(&args[1])) {
                (Some(p), Some(q)) => p.min(400) > -400 && q.min(400) > -400 && a.bounds(&args[1]).0.is_some() && a.bounds(&args[1]).1.is_some(),
                _ => false,
            }
        });
        let a = self.lin_real(&args[0]);
        let b = self.lin_real(&args[1]);
        let c = self.c;
        unsafe {
            let z = self.num(Rat::ZERO, true);
            let one = self.num(Rat::ONE, true);
            let not = |p| Z3_mk_not(c, p);
            let and = |p, q| Z3_mk_and(c, 2, [p, q].as_ptr());
            let or = |p, q| Z3_mk_or(c, 2, [p, q].as_ptr());
            let imp = |p, q| Z3_mk_or(c, 2, [not(p), q].as_ptr());
            let lt = |p, q| Z3_mk_lt(c, p, q);
            let le = |p, q| Z3_mk_le(c, p, q);
            let (ap, an) = (lt(z, a), lt(a, z));
            let (bp, bn) = (lt(z, b), lt(b, z));
            let pos = or(and(ap, bp), and(an, bn));
            let neg = or(and(ap, bn), and(an, bp));
            let mut ax = vec![];
            let (sp, sn) = if safe { (lt(z, x), lt(x, z)) } else { (le(z, x), le(x, z)) };
            ax.push(imp(pos, sp));
            ax.push(imp(neg, sn));
            ax.push(imp(Z3_mk_eq(c, a, z), Z3_mk_eq(c, x, z)));
            if op == "mul" {
                ax.push(imp(Z3_mk_eq(c, b, z), Z3_mk_eq(c, x, z)));
            } else {
                // 0 <= a < b  =>  a/b < 1, and so on
                let neg1 = self.num(Rat::int(-1), true);
                let nb = Z3_mk_mul(c, 2, [neg1, b].as_ptr());
                let inside = or(and(lt(a, b), lt(nb, a)), and(lt(b, a), lt(a, nb)));
                let bnz = or(bp, bn);
                ax.push(imp(inside, and(lt(neg1, x), lt(x, one))));
                ax.push(imp(and(bnz, Z3_mk_eq(c, a, b)), Z3_mk_eq(c, x, one)));
                ax.push(imp(and(bnz, Z3_mk_eq(c, a, nb)), Z3_mk_eq(c, x, neg1)));
                ax.push(imp(or(and(bp, lt(b, a)), and(bn, lt(a, b))), le(one, x)));
            }
            for f in ax {
                Z3_solver_assert(c, self.s, f);
            }
        }
    }
    /// Rounding is monotone: an atom comparing `RN(e)` with a value `k` that is a double
    /// constrains `e` in the same direction.
    fn mono_axioms(&mut self, l: &Lin) {
        let fs = match self.mono.get(l) {
            Some(f) => f.clone(),
            None => {
                let f = Rc::new(self.mono_facts(l));
                self.mono.insert(l.clone(), f.clone());
                f
            }
        };
        // the variables of the facts
        for (v, _) in &l.t {
            let dep: Option<Lin> = with(|a| match &a.vars[*v as usize].def {
                Def::Rn(e) => Some(e.clone()),
                _ => None,
            });
            if let Some(e) = dep {
                for (w, _) in &e.t {
                    self.declare(*w);
                }
            }
        }
        for f in fs.iter() {
            unsafe { Z3_solver_assert(self.c, self.s, *f) };
        }
    }
    fn mono_facts(&mut self, l: &Lin) -> Vec<Ast> {
        let mut out = vec![];
        for (i, (v, k)) in l.t.iter().enumerate() {
            let one = *k == Rat::ONE;
            if !one && *k != Rat::int(-1) {
                continue;
            }
            let facts = with(|a| {
                let Def::Rn(e) = &a.vars[*v as usize].def else { return None };
                let mut rest = l.clone();
                rest.t.remove(i);
                let rest = if one { rest.scale(Rat::int(-1))? } else { rest };
                // v REL rest
                let cmp = if a.always_exact(&rest) {
                    rest.clone()
                } else if rest.t.len() == 1 && rest.c.is_zero() && rest.t[0].1 == Rat::ONE {
                    match &a.vars[rest.t[0].0 as usize].def {
                        Def::Rn(f) => f.clone(),
                        _ => rest.clone(),
                    }
                } else {
                    return None;
                };
                Some((e.clone(), rest, cmp))
            });
            let Some((e, rest, cmp)) = facts else { continue };
            let x = self.var(*v);
            let (ea, ra, ca) = (self.lin_real(&e), self.lin_real(&rest), self.lin_real(&cmp));
            let c = self.c;
            unsafe {
                let imp = |p, q| Z3_mk_or(c, 2, [Z3_mk_not(c, p), q].as_ptr());
                let fs = [
                    imp(Z3_mk_lt(c, x, ra), Z3_mk_lt(c, ea, ca)),
                    imp(Z3_mk_lt(c, ra, x), Z3_mk_lt(c, ca, ea)),
                    imp(Z3_mk_eq(c, ea, ca), Z3_mk_eq(c, x, ra)),
                ];
                out.extend(fs);
            }
        }
        out
    }
    fn lin_real(&mut self, l: &Lin) -> Ast {
        if let Some(a) = self.lins.get(l) {
            let a = *a;
            for (v, _) in &l.t {
                self.declare(*v);
            }
            return a;
        }
        let a = self.lin_real0(l);
        self.lins.insert(l.clone(), a);
        a
    }
    fn lin_real0(&mut self, l: &Lin) -> Ast {
        let mut ts = vec![self.num(l.c, true)];
        for (v, k) in &l.t {
            self.declare(*v);
            let is_int = with(|a| a.vars[*v as usize].is_int);
            let mut x = self.var(*v);
            unsafe {
                if is_int {
                    x = Z3_mk_int2real(self.c, x);
                }
                let k = self.num(*k, true);
                ts.push(Z3_mk_mul(self.c, 2, [k, x].as_ptr()));
            }
        }
        unsafe { Z3_mk_add(self.c, ts.len() as u32, ts.as_ptr()) }
    }
    fn rel(&self, e: Ast, z: Ast, r: Rel) -> Ast {
        unsafe {
            match r {
                Rel::Lt => Z3_mk_lt(self.c, e, z),
                Rel::Le => Z3_mk_le(self.c, e, z),
                Rel::Eq => Z3_mk_eq(self.c, e, z),
            }
        }
    }
    fn lin_atom(&mut self, l: &Lin, r: Rel) -> Ast {
        for (v, _) in &l.t {
            self.declare(*v);
        }
        let all_int = with(|a| l.t.iter().all(|(v, _)| a.vars[*v as usize].is_int));
        if !all_int {
            self.mono_axioms(l);
        }
        let key = (l.clone(), r);
        if let Some(a) = self.atoms.get(&key) {
            return *a;
        }
        let a = self.lin_atom0(l, r, all_int);
        self.atoms.insert(key, a);
        a
    }
    fn lin_atom0(&mut self, l: &Lin, r: Rel, all_int: bool) -> Ast {
        if all_int {
            // scale to integer coefficients
            let m = (|| {
                let mut m: i128 = l.c.d;
                for (_, k) in &l.t {
                    let g = {
                        let (mut a, mut b) = (m, k.d);
                        while b != 0 {
                            let t = a % b;
                            a = b;
                            b = t;
                        }
                        a
                    };
                    m = m.checked_mul(k.d / g)?;
                }
                l.scale(Rat::int(m))
            })();
            if let Some(s) = m {
                // g = gcd of coefficients; tighten the constant
                let mut g: i128 = 0;
                for (_, k) in &s.t {
                    let (mut a, mut b) = (g, k.n.abs());
                    while b != 0 {
                        let t = a % b;
                        a = b;
                        b = t;
                    }
                    g = a;
                }
                let (c, rel) = match r {
                    // sum + c < 0  <=>  sum/g <= ceil(-c/g) - 1  <=> sum/g + (1 - ceil(-c/g)) <= 0
                    Rel::Lt => {
                        let q = -((s.c.n).div_euclid(g)); // ceil(-c/g)
                        (1 - q, Rel::Le)
                    }
                    // sum + c <= 0 <=> sum/g <= floor(-c/g)
                    Rel::Le => {
                        let q = (-s.c.n).div_euclid(g);
                        (-q, Rel::Le)
                    }
                    Rel::Eq => {
                        if s.c.n % g != 0 {
                            return unsafe { Z3_mk_false(self.c) };
                        }
                        (s.c.n / g, Rel::Eq)
                    }
                };
                let mut ts = vec![];
                for (v, k) in &s.t {
                    let x = self.var(*v);
                    let k = k.n / g;
                    if k == 1 {
                        ts.push(x);
                    } else {
                        let k = self.num(Rat::int(k), false);
                        ts.push(unsafe { Z3_mk_mul(self.c, 2, [k, x].as_ptr()) });
                    }
                }
                let e = if ts.len() == 1 { ts[0] } else { unsafe { Z3_mk_add(self.c, ts.len() as u32, ts.as_ptr()) } };
                let z = self.num(Rat::int(-c), false);
                return self.rel(e, z, rel);
            }
        }
        let e = self.lin_real(l);
        let z = self.num(Rat::ZERO, true);
        self.rel(e, z, r)
    }
    fn fm(&mut self, f: &Fm) -> Ast {
        if let Node::Atom(l, r) = &*f.n {
            return self.lin_atom(l, *r);
        }
        let mut memo = Default::default();
        self.fm_rec(f, &mut memo)
    }
    fn fm_rec(&mut self, f: &Fm, memo: &mut FastMap<*const Node, Ast>) -> Ast {
        let key = Rc::as_ptr(&f.n);
        if let Some(a) = memo.get(&key) {
            return *a;
        }
        let a = self.fm0(f, memo);
        memo.insert(key, a);
        a
    }
    fn fm0(&mut self, f: &Fm, memo: &mut FastMap<*const Node, Ast>) -> Ast {
        unsafe {
            match &*f.n {
                Node::Const(true) => Z3_mk_true(self.c),
                Node::Const(false) => Z3_mk_false(self.c),
                Node::Atom(l, r) => self.lin_atom(l, *r),
                Node::PAtom(p, r) => {
                    let mut ts = vec![self.num(Rat::ZERO, true)];
                    for (vs, k) in &p.m {
                        let mut fs = vec![self.num(*k, true)];
                        for v in vs {
                            self.declare(*v);
                            let is_int = with(|a| a.vars[*v as usize].is_int);
                            let x = self.var(*v);
                            fs.push(if is_int { Z3_mk_int2real(self.c, x) } else { x });
                        }
                        ts.push(Z3_mk_mul(self.c, fs.len() as u32, fs.as_ptr()));
                    }
                    let e = Z3_mk_add(self.c, ts.len() as u32, ts.as_ptr());
                    let z = self.num(Rat::ZERO, true);
                    self.rel(e, z, *r)
                }
                Node::Not(x) => {
                    let a = self.fm_rec(x, memo);
                    Z3_mk_not(self.c, a)
                }
                Node::And(v) => {
                    let a: Vec<Ast> = v.iter().map(|x| self.fm_rec(x, memo)).collect();
                    Z3_mk_and(self.c, a.len() as u32, a.as_ptr())
                }
                Node::Or(v) => {
                    let a: Vec<Ast> = v.iter().map(|x| self.fm_rec(x, memo)).collect();
                    Z3_mk_or(self.c, a.len() as u32, a.as_ptr())
                }
                Node::Xor(x, y) => {
                    let (a, b) = (self.fm_rec(x, memo), self.fm_rec(y, memo));
                    Z3_mk_xor(self.c, a, b)
                }
            }
        }
    }
    fn push(&mut self) {
        unsafe { Z3_solver_push(self.c, self.s) }
        self.levels.push(vec![]);
    }
    fn pop(&mut self) {
        unsafe { Z3_solver_pop(self.c, self.s, 1) }
        for v in self.levels.pop().unwrap() {
            self.asserted.remove(&v);
        }
    }
    fn assert(&mut self, f: &Fm, pos: bool) {
        let a = self.fm(f);
        unsafe {
            let a = if pos { a } else { Z3_mk_not(self.c, a) };
            Z3_solver_assert(self.c, self.s, a);
        }
    }
    fn check(&mut self) -> i32 {
        let t = Instant::now();
        let r = unsafe { Z3_solver_check(self.c, self.s) };
        self.queries += 1;
        let dt = t.elapsed().as_secs_f64();
        self.time += dt;
        if dt > self.slow {
            self.slow = dt;
        }
        r
    }
    fn model(&mut self) -> HashMap<String, i64> {
        let mut out = HashMap::new();
        unsafe {
            let m = Z3_solver_get_model(self.c, self.s);
            Z3_model_inc_ref(self.c, m);
            let vs: Vec<VarId> = self.asserted.iter().cloned().collect();
            for v in vs {
                let (is_int, name) = with(|a| (a.vars[v as usize].is_int, a.vars[v as usize].name.clone()));
                if !is_int {
                    continue;
                }
                let x = self.var(v);
                let mut r: Ast = std::ptr::null_mut();
                if Z3_model_eval(self.c, m, x, true, &mut r) {
                    let mut i = 0i64;
                    if Z3_get_numeral_int64(self.c, r, &mut i) {
                        out.insert(name, i);
                    }
                }
            }
            Z3_model_dec_ref(self.c, m);
        }
        out
    }
}

// ------------------------------------------------------------------ explorer

#[derive(Clone)]
pub struct Config {
    pub max_paths: u64,
    pub max_seconds: f64,
    pub max_branches: usize,
    /// how long one run of the code may take
    pub stuck_s: u64,
    pub query_timeout_ms: u32,
    pub nra: bool,
    pub stop_at_first: bool,
    pub verbose: bool,
    /// 0: depth first; otherwise pending branches are tried in a random order
    pub seed: u64,
}
impl Default for Config {
    fn default() -> Self {
        Config {
            max_paths: 1_000_000,
            max_seconds: 600.0,
            max_branches: 50_000,
            stuck_s: 40,
            query_timeout_ms: 20_000,
            nra: false,
            stop_at_first: true,
            verbose: false,
            seed: 0,
        }
    }
}

#[derive(Default, Debug, Clone)]
pub struct Violation {
    pub label: String,
    pub detail: String,
    pub inputs: BTreeMap<String, i64>,
}

#[derive(Default, Debug, Clone)]
pub struct Report {
    pub paths: u64,
    pub assumed_away: u64,
    pub flip_queries: u64,
    pub assert_queries: u64,
    pub trivial_asserts: u64,
    pub solver_s: f64,
    pub slowest_query_s: f64,
    pub wall_s: f64,
    pub max_depth: usize,
    pub diverged: u64,
    pub violating: u64,
    pub pending: u64,
    pub unknown: u64,
    pub engine_limits: BTreeMap<String, u64>,
    /// inputs of some runs that were cut off
    pub cut_off: Vec<BTreeMap<String, i64>>,
    pub covers: BTreeMap<String, u64>,
    pub checks: BTreeMap<String, u64>,
    pub violations: Vec<Violation>,
    pub complete: bool,
    pub inputs: usize,
    pub rounded_ops: u64,
    pub nonlinear_ops: u64,
    pub concretized: u64,
    pub sample_inputs: Vec<BTreeMap<String, i64>>,
}

struct Node1 {
    parent: usize,
    depth: usize,
    f: Fm,
    taken: bool,
}

fn path_to(tree: &[Node1], mut n: usize) -> Vec<usize> {
    let mut v = Vec::with_capacity(tree[n].depth);
    while n != 0 {
        v.push(n);
        n = tree[n].parent;
    }
    v.reverse();
    v
}

/// Makes the solver stack hold exactly the conditions of `path`.
fn goto(sv: &mut Solv, tree: &[Node1], on: &mut Vec<usize>, path: &[usize]) {
    let common = on.iter().zip(path).take_while(|(a, b)| a == b).count();
    while on.len() > common {
        sv.pop();
        on.pop();
    }
    for &n in &path[common..] {
        sv.push();
        sv.assert(&tree[n].f, tree[n].taken);
        on.push(n);
    }
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn install_quiet_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let p = info.payload();
        if p.is::<PathEnd>() || p.is::<EngineLimit>() {
            return;
        }
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = p
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        let m = format!("{} at {loc}", msg.lines().next().unwrap_or(""));
        LAST_PANIC.with(|x| *x.borrow_mut() = m);
    }));
}

/// Runs `f` and reports a panic of the code under test as a failed check.
pub fn explore(cfg: &Config, body: &dyn Fn()) -> Report {
    install_quiet_panic_hook();
    with(|a| *a = Arena { moving: crate::param("move", 0) == 1, ..Default::default() });
    let start = Instant::now();
    watch(cfg.stuck_s);
    let mut rep = Report::default();
    let mut sv = Solv::new(cfg.query_timeout_ms, cfg.nra);
    // The execution tree.  Node 0 is the root; every other node is a decided branch.
    let mut tree: Vec<Node1> = vec![Node1 { parent: 0, depth: 0, f: tt(), taken: true }];
    // branch outcomes that still have to be tried: (node before the branch, condition, outcome)
    let mut pending: Vec<(usize, Fm, bool)> = vec![];
    // nodes whose conditions are on the solver stack, root first
    let mut on: Vec<usize> = vec![];
    let mut assignment: HashMap<String, i64> = HashMap::new();
    let mut expect: Vec<usize> = vec![];
    let mut rng = cfg.seed.wrapping_mul(0x9E3779B97F4A7C15).wrapping_add(0x1234567);
    loop {
        // ---- run
        with(|a| {
            a.known.clear();
            for v in &mut a.vars {
                v.cur = None;
                v.cf = f64::NAN;
            }
            a.run = Run { assignment: assignment.clone(), active: true, max_branches: cfg.max_branches, ..Default::default() };
        });
        *WATCH.lock().unwrap() = Some((Instant::now(), vec![]));
        let r = catch_unwind(AssertUnwindSafe(body));
        *WATCH.lock().unwrap() = None;
        let run = with(|a| {
            a.run.active = false;
            std::mem::take(&mut a.run)
        });
        rep.paths += 1;
        for (k, v) in &run.covers {
            *rep.covers.entry(k.clone()).or_insert(0) += v;
        }
        let mut panic_msg = None;
        let mut ended = false;
        let mut limited = false;
        if let Err(e) = r {
            if e.is::<PathEnd>() {
                ended = true;
                rep.assumed_away += 1;
            } else if let Some(l) = e.downcast_ref::<EngineLimit>() {
                limited = true;
                *rep.engine_limits.entry(l.0.clone()).or_insert(0) += 1;
            } else {
                panic_msg = Some(LAST_PANIC.with(|x| x.borrow().clone()));
            }
        }
        let inputs: BTreeMap<String, i64> = run.used.iter().cloned().collect();
        if limited && rep.cut_off.len() < 4 {
            rep.cut_off.push(inputs.clone());
        }
        rep.inputs = rep.inputs.max(inputs.len());
        rep.max_depth = rep.max_depth.max(run.trace.len());
        // ---- compare with the expected prefix
        let bad = if run.trace.len() < expect.len() {
            Some(run.trace.len())
        } else {
            expect.iter().zip(&run.trace).position(|(n, b)| tree[*n].f != b.f || tree[*n].taken != b.taken)
        };
        let mut found: Vec<Violation> = vec![];
        if let Some(m) = panic_msg.clone() {
            found.push(Violation { label: "panic".into(), detail: m, inputs: inputs.clone() });
        }
        if let Some(i) = bad {
            rep.diverged += 1;
            if cfg.verbose && i < run.trace.len() {
                let (fr, b) = (&tree[expect[i]], &run.trace[i]);
                eprintln!("diverged at {i}/{}: expected {}={} got {}={}", expect.len(), show(&fr.f), fr.taken, show(&b.f), b.taken);
            }
            // the concrete run is still evidence: look at the assertions on these inputs only
            if !ended && !limited && panic_msg.is_none() {
                for (l, f) in &run.checks {
                    if !f.val {
                        found.push(Violation { label: l.clone(), detail: "concrete".into(), inputs: inputs.clone() });
                        break;
                    }
                }
            }
        } else {
            let mut path = expect.clone();
            let depth0 = path.len();
            for b in &run.trace[depth0..] {
                let parent = path.last().cloned().unwrap_or(0);
                tree.push(Node1 { parent, depth: path.len() + 1, f: b.f.clone(), taken: b.taken });
                path.push(tree.len() - 1);
                pending.push((parent, b.f.clone(), !b.taken));
            }
            if panic_msg.is_none() && !ended && !limited {
                if rep.sample_inputs.len() < 3 || rep.paths.is_power_of_two() && rep.sample_inputs.len() < 12 {
                    rep.sample_inputs.push(inputs.clone());
                }
                // ---- assertions: one query for the conjunction, details on failure
                let mut todo = vec![];
                for (l, f) in &run.checks {
                    *rep.checks.entry(l.clone()).or_insert(0) += 1;
                    if f.as_const() == Some(true) {
                        rep.trivial_asserts += 1;
                    } else {
                        todo.push((l.clone(), f.clone()));
                    }
                }
                if !todo.is_empty() {
                    let conj = all(todo.iter().map(|x| x.1.clone()));
                    goto(&mut sv, &tree, &mut on, &path);
                    sv.push();
                    sv.assert(&conj, false);
                    let r = sv.check();
                    rep.assert_queries += 1;
                    let bad = if r == 1 { Some(sv.model()) } else { None };
                    if r == 0 {
                        rep.unknown += 1;
                    }
                    sv.pop();
                    if let Some(mut m) = bad {
                        // name the failing assertion
                        let mut lab = String::new();
                        for (l, f) in &todo {
                            sv.push();
                            sv.assert(f, false);
                            let r = sv.check();
                            if r == 1 {
                                m = sv.model();
                                lab = l.clone();
                            }
                            sv.pop();
                            if r == 1 {
                                break;
                            }
                        }
                        let mut inp = inputs.clone();
                        for (k, v) in m {
                            inp.insert(k, v);
                        }
                        found.push(Violation { label: lab, detail: String::new(), inputs: inp });
                    }
                }
            }
        }
        for v in found {
            rep.violating += 1;
            if rep.violations.iter().filter(|w| w.label == v.label).count() < 8 {
                rep.violations.push(v);
            }
        }
        if !rep.violations.is_empty() && (cfg.stop_at_first || rep.violating > 400) {
            break;
        }
        if cfg.verbose && rep.paths % 200 == 0 {
            eprintln!(
                "paths {} pending {} queries {} solver {:.1}s wall {:.1}s div {} limits {:?}",
                rep.paths,
                pending.len(),
                sv.queries,
                sv.time,
                start.elapsed().as_secs_f64(),
                rep.diverged,
                rep.engine_limits
            );
        }
        if rep.paths >= cfg.max_paths || start.elapsed().as_secs_f64() > cfg.max_seconds {
            break;
        }
        // ---- next outcome to try
        let mut next = None;
        while !pending.is_empty() && start.elapsed().as_secs_f64() <= cfg.max_seconds {
            if cfg.seed != 0 {
                rng ^= rng << 13;
                rng ^= rng >> 7;
                rng ^= rng << 17;
                let k = (rng % pending.len() as u64) as usize;
                let n = pending.len() - 1;
                pending.swap(k, n);
            }
            let (parent, f, taken) = pending.pop().unwrap();
            let path = path_to(&tree, parent);
            goto(&mut sv, &tree, &mut on, &path);
            sv.push();
            sv.assert(&f, taken);
            let r = sv.check();
            rep.flip_queries += 1;
            if r == 1 {
                let m = sv.model();
                tree.push(Node1 { parent, depth: path.len() + 1, f, taken });
                on.push(tree.len() - 1);
                expect = on.clone();
                next = Some(m);
                break;
            }
            if r == 0 {
                rep.unknown += 1;
            }
            sv.pop();
        }
        match next {
            Some(m) => assignment = m,
            None => {
                rep.complete = pending.is_empty();
                break;
            }
        }
    }
    rep.pending = pending.len() as u64;
    if rep.diverged > 0 || rep.unknown > 0 || !rep.engine_limits.is_empty() {
        rep.complete = false;
    }
    rep.solver_s = sv.time;
    rep.slowest_query_s = sv.slow;
    rep.wall_s = start.elapsed().as_secs_f64();
    with(|a| {
        rep.rounded_ops = a.stats.rounded_ops;
        rep.nonlinear_ops = a.stats.nonlinear_ops;
        rep.concretized = a.stats.concretized;
    });
    unsafe { Z3_del_context(sv.c) };
    rep
}

/// Readable form of a branch condition (diagnostics only).
pub(crate) fn show(f: &Fm) -> String {
    fn lin(a: &Arena, l: &Lin, d: usize) -> String {
        let mut s = format!("{}", l.c.approx());
        for (v, k) in &l.t {
            let var = &a.vars[*v as usize];
            let n = match &var.def {
                Def::Input(..) => var.name.clone(),
                _ if d == 0 => var.name.clone(),
                Def::Rn(e) => format!("rn({})", lin(a, e, d - 1)),
                Def::Nl(o, es) => format!("{o}({})", es.iter().map(|e| lin(a, e, d - 1)).collect::<Vec<_>>().join(", ")),
            };
            s.push_str(&format!(" + {}*{n}", k.approx()));
        }
        s
    }
    with(|a| match &*f.n {
        Node::Atom(l, r) => format!("[{} {r:?} 0]", lin(a, l, 4)),
        Node::Not(x) => match &*x.n {
            Node::Atom(l, r) => format!("[not {} {r:?} 0]", lin(a, l, 4)),
            _ => format!("{:?}", f.n),
        },
        _ => format!("{:?}", f.n),
    })
}
