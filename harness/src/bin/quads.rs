//! Quadratic polynomials: signs, roots, moving.
use harness::*;
use linesweeper::curve::Order;

// ---------------------------------------------------------------- quadratics

/// Coefficients of c2 y^2 + c1 y + c0.
fn coefficients(kind: i64, n: i64) -> [f64; 3] {
    let mut r = Rng(0x9e3779b97f4a7c15 ^ (kind as u64) << 40 ^ (n as u64 + 1) * 0x2545f4914f6cdd1d);
    for _ in 0..4 {
        r.next(2);
    }
    let mut i = |m: i64| (r.next(2 * m + 1) - m) as f64;
    match kind {
        // anything
        0 => [i(9), i(60), i(99)],
        // two roots on the grid
        1 => {
            let (a, u, v) = (i(6), i(20), i(20));
            [a, -a * (u + v), a * u * v]
        }
        // a double root
        2 => {
            let (a, u) = (i(6), i(20));
            [a, -2.0 * a * u, a * u * u]
        }
        // linear, constant, zero
        3 => [0.0, i(3), i(20)],
        // nearly linear
        4 => [i(4) * 2f64.powi(-60), i(9), i(99)],
        // fractions
        5 => [i(999) / 1024.0, i(999) / 256.0, i(999) / 16.0],
        // no linear part
        6 => [i(9), 0.0, i(99)],
        // small, and with a root at zero
        _ => [i(9) / 4096.0, i(99) / 4096.0, if n % 2 == 0 { 0.0 } else { i(99) / 4096.0 }],
    }
}

/// Signs of quadratics at a symbolic height.  Params: kind, n0, n; run with --nra.
fn signs() {
    let n = pick("poly", param("n0", 0), param("n0", 0) + param("n", 8));
    let [c2, c1, c0] = coefficients(param("kind", 0), n);
    let q = ls::curve::Quadratic { c2: lit(c2), c1: lit(c1), c0: lit(c0) };
    let s = q.signs();
    let (r0, r1, init) = (val(s.smaller_root), val(s.bigger_root), val(s.initial_sign));
    check("roots-in-order", from_bool(r0 <= r1 && !init.is_nan()));
    let y = input("y", -512, 512, -3);
    let v = lit(c2) * y * y + lit(c1) * y + lit(c0);
    let tiny = 1e-9 * (c2.abs() * 4096.0 + c1.abs() * 64.0 + c0.abs());
    let want = |sign: f64| {
        if sign > 0.0 {
            le(lit(-tiny), v)
        } else if sign < 0.0 {
            le(v, lit(tiny))
        } else {
            le(lit(-tiny), v) & le(v, lit(tiny))
        }
    };
    let clip = |r: f64| lit(r.clamp(-1e6, 1e6));
    check("sign-before-the-roots", implies(lt(y, clip(r0)), want(init)));
    check("sign-between-the-roots", implies(lt(clip(r0), y) & lt(y, clip(r1)), want(-init)));
    check("sign-after-the-roots", implies(lt(clip(r1), y), want(init)));
    check("largest-coefficient", from_bool(val(q.max_coeff()) == c2.abs().max(c1.abs()).max(c0.abs())));
    // regions between two thresholds
    for (lower, upper) in [(-1.0, 1.0), (-0.25, 0.25), (-50.0, 3.0)] {
        for (top, bottom) in [(-60.0, 60.0), (-3.0, 7.0), (0.0, 0.5)] {
            let mut out = ls::curve::CurveOrder::new(lit(top));
            ls::curve::push_quadratic_signs(lit(c2), lit(c1), lit(c0), lit(lower), lit(upper), lit(top), lit(bottom), &mut out);
            let es: Vec<_> = out.iter().map(|(u, v, o)| (val(u), val(v), o)).collect();
            check("regions-cover-the-heights", from_bool(!es.is_empty() && es[0].0 == top && es[es.len() - 1].1 == bottom && es.windows(2).all(|w| w[0].1 == w[1].0)));
            for e in &es {
                let ok = match e.2 {
                    Order::Left => le(lit(upper - tiny), v),
                    Order::Right => le(v, lit(lower + tiny)),
                    Order::Ish => le(lit(lower - tiny), v) & le(v, lit(upper + tiny)),
                };
                check("region-has-its-sign", implies(lt(lit(e.0), y) & lt(y, lit(e.1)), ok));
            }
        }
    }
    cover("done");
}

/// Roots of y^2 + b y + c with b and c of any size.  Params: e, f: b = B 2^e, c = C 2^(2e + f).
fn monic() {
    let (e, f) = (param("e", 0) as i32, param("f", 0) as i32);
    let b = pick("b", -7, 8);
    let c = pick("c", -7, 8);
    let (sb, sc) = (b as f64, c as f64 * 2f64.powi(f));
    let two = |k: i32| 2f64.powi(k / 2) * 2f64.powi(k - k / 2);
    let (bb, cc) = (sb * two(e), if c == 0 { 0.0 } else { c as f64 * two(2 * e + f) });
    if !bb.is_finite() || !cc.is_finite() {
        return;
    }
    let (r0, r1) = ls::curve::monic_quadratic_roots(lit(bb), lit(cc));
    let (r0, r1) = (val(r0), val(r1));
    check("roots-are-numbers", from_bool(!r0.is_nan() && !r1.is_nan() && r0 <= r1));
    // the scaled polynomial y^2 + sb y + sc, in ordinary numbers
    let disc = sb * sb - 4.0 * sc;
    let none = r0 == f64::NEG_INFINITY && r1 == f64::NEG_INFINITY;
    if disc.abs() <= 1e-9 * (sb * sb + sc.abs()) {
        // touching zero: a double root, or none
        cover("touching");
        let r = -0.5 * bb;
        check("double-root", from_bool(none || (r0 - r).abs() <= 1e-4 * r.abs() && (r1 - r).abs() <= 1e-4 * r.abs()));
    } else if disc < 0.0 {
        cover("no-root");
        check("no-root", from_bool(none));
    } else {
        cover("two-roots");
        let big = -0.5 * (sb + disc.sqrt().copysign(sb));
        let other = if big == 0.0 { 0.0 } else { sc / big };
        let (w0, w1) = (big.min(other) * two(e), big.max(other) * two(e));
        let near = |r: f64, w: f64| r == w || (r - w).abs() <= 1e-9 * w.abs() || r.is_infinite() && w.abs() > 1e150 && r.signum() == w.signum();
        check("both-roots", from_bool(near(r0, w0) && near(r1, w1)));
    }
    cover("done");
}

/// Moving quadratics, for all coefficients.
fn moved() {
    let c = ["a", "b", "c"].map(|k| input(k, -1000, 1000, 0));
    let q = ls::curve::Quadratic { c2: c[0], c1: c[1], c0: c[2] };
    for x in [-3.0, 0.0, 0.5, 2.0, 7.0] {
        let at = |q: &ls::curve::Quadratic, x: f64| q.c2 * lit(x * x) + q.c1 * lit(x) + q.c0;
        check("value", eq(q.eval(lit(x)), at(&q, x)));
        for s in [-5.0, -0.25, 0.0, 1.0, 3.0] {
            check("moved-sideways", eq(q.shift(lit(s)).eval(lit(x)), at(&q, x - s)));
            check("moved-up", eq((q + lit(s)).eval(lit(x)), at(&q, x) + lit(s)));
        }
    }
    cover("done");
}

fn main() {
    run_cli(&[("signs", signs), ("moved", moved), ("monic", monic)]);
}
