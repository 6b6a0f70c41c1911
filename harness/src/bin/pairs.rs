//! Pairs of concrete curves at a symbolic position: their order, and estimates made about them.
use harness::*;

// ---------------------------------------------------------------- pairs of curves

/// Whether regions (relative to the translation) describe the curves a and b + (dx, 0).
fn judge(es: &[(F, F, ls::curve::Order)], a: &Cub, b: &Cub, dx: F, tol: f64, acc: f64) {
    let (top, bottom) = (a[0].1.max(b[0].1), a[3].1.min(b[3].1));
    check("covers-the-common-heights", from_bool(!es.is_empty()) & eq(es[0].0, lit(top)) & eq(es[es.len() - 1].1, lit(bottom)));
    for w in es.windows(2) {
        check("no-gaps", eq(w[0].1, w[1].0));
    }
    // one ends where the other begins
    if top == bottom {
        let p = |c: &Cub| if c[0].1 == top { c[0].0 } else { c[3].0 };
        let d = p(b) - p(a);
        check("one-region-at-one-height", from_bool(es.len() == 1));
        let ok = match es[0].2 {
            ls::curve::Order::Left => lin_le(&[(tol - acc - d, lit(1.0)), (-1.0, dx)]),
            ls::curve::Order::Right => lin_le(&[(tol - acc + d, lit(1.0)), (1.0, dx)]),
            ls::curve::Order::Ish => lin_le(&[(d - tol - acc, lit(1.0)), (1.0, dx)]) & lin_le(&[(-d - tol - acc, lit(1.0)), (-1.0, dx)]),
        };
        check("order-where-one-ends", ok);
        cover("one-height");
    }
    // what the curves do near a height: the extremes of the distance between points of the two
    // curves whose heights are within `slop` of it
    let m = 96;
    let h = bottom - top;
    let slop = tol * param("slop", 1) as f64 + 1e-9;
    let heights: Vec<f64> = if h <= 4.0 * slop { vec![] } else { (0..=m).map(|i| top + 2.0 * slop + (h - 4.0 * slop) * i as f64 / m as f64).collect() };
    let float = 1e-8;
    for y in heights {
        let range = |c: &Cub| {
            let v: Vec<f64> = (-2..=2).map(|k| x_at(c, y + slop * k as f64 / 2.0)).collect();
            (v.iter().copied().fold(f64::MAX, f64::min), v.iter().copied().fold(f64::MIN, f64::max))
        };
        let (ra, rb) = (range(&a), range(&b));
        let (lo, hi) = (rb.0 - ra.1, rb.1 - ra.0);
        for e in es {
            let here = le(e.0, lit(y)) & le(lit(y), e.1);
            let ok = match e.2 {
                // nowhere near is the other one true
                ls::curve::Order::Left => lin_le(&[(tol - acc - float - hi, lit(1.0)), (-1.0, dx)]),
                ls::curve::Order::Right => lin_le(&[(tol - acc - float + lo, lit(1.0)), (1.0, dx)]),
                ls::curve::Order::Ish => lin_le(&[(lo - tol - acc - float, lit(1.0)), (1.0, dx)]) & lin_le(&[(-hi - tol - acc - float, lit(1.0)), (-1.0, dx)]),
            };
            let l = match e.2 {
                ls::curve::Order::Left => "left-is-left",
                ls::curve::Order::Right => "right-is-right",
                ls::curve::Order::Ish => "close-is-close",
            };
            check(l, implies(here, ok));
        }
    }
}

/// The comparison of two curves.  Params: kind, n0, n (pairs n0..n0+n), tolexp; rel=1: the second
/// curve also moves sideways (symbolic), otherwise both move together (run with move=1).
fn order() {
    let lim = param("lim", 500);
    let tol = 2f64.powi(-param("tolexp", 20) as i32);
    let acc = tol / 2.0;
    let n = pick("pair", param("n0", 0), param("n0", 0) + param("n", 8));
    let (a, b) = pair(param("kind", 0), n, tol);
    let rel = param("rel", 0) == 1;
    let (t, dx) = if rel { ((lit(0.0), lit(0.0)), input("dx", -lim, lim, param("grid", 0) as i32)) } else { ((input("tx", -lim, lim, 0), input("ty", -lim, lim, 0)), lit(0.0)) };
    let (c0, c1) = (cubic(&a, t), cubic(&b, (t.0 + dx, t.1)));
    let (top, bottom) = (a[0].1.max(b[0].1), a[3].1.min(b[3].1));
    if top > bottom {
        cover("apart");
        return;
    }
    let r = ls::curve::intersect_cubics(c0, c1, lit(tol), lit(acc));
    r.check_invariants();
    let es: Vec<(F, F, ls::curve::Order)> = r.iter().map(|(u, v, o)| (u - t.1, v - t.1, o)).collect();
    if param("show", 0) == 1 {
        eprintln!("{a:?} {b:?}");
        for e in &es {
            eprintln!("{:?} {:?} {:?}", val(e.0), val(e.1), e.2);
        }
    }
    judge(&es, &a, &b, dx, tol, acc);
    cover("done");
    if es.len() > 2 {
        cover("several-regions");
    }
}

/// Comparisons through the cache.  Params as for `order`; run with move=1.
fn cache() {
    let lim = param("lim", 500);
    let tol = 2f64.powi(-param("tolexp", 20) as i32);
    let acc = tol / 2.0;
    let n = pick("pair", param("n0", 0), param("n0", 0) + param("n", 8));
    let (a, b) = pair(param("kind", 0), n, tol);
    let t = (input("tx", -lim, lim, 0), input("ty", -lim, lim, 0));
    let (top, bottom) = (a[0].1.max(b[0].1), a[3].1.min(b[3].1));
    if top > bottom {
        cover("apart");
        return;
    }
    let mut segs = ls::Segments::default();
    for c in [&a, &b] {
        let q = cubic(c, t);
        let mut p = BezPath::new();
        p.move_to(q.p0);
        p.curve_to(q.p1, q.p2, q.p3);
        segs.add_non_closed_bez_path(&p);
    }
    let ids: Vec<_> = segs.indices().collect();
    if ids.len() != 2 {
        // a curve that is not monotone after all
        cover("more pieces");
        return;
    }
    type E = Vec<(F, F, ls::curve::Order)>;
    let rel = |o: &ls::curve::CurveOrder| -> E { o.iter().map(|(u, v, o)| (u - t.1, v - t.1, o)).collect() };
    let mirrored = |x: &E, y: &E| {
        x.len() == y.len()
            && x.iter().zip(y).all(|(p, q)| val(p.0) == val(q.0) && val(p.1) == val(q.1) && match p.2 {
                ls::curve::Order::Left => q.2 == ls::curve::Order::Right,
                ls::curve::Order::Right => q.2 == ls::curve::Order::Left,
                ls::curve::Order::Ish => q.2 == ls::curve::Order::Ish,
            })
    };
    for first in 0..2 {
        let (i, j) = (ids[first], ids[1 - first]);
        let mut exact = ls::order::ComparisonCache::new_without_y_slop(lit(tol), lit(acc));
        let mut sloppy = ls::order::ComparisonCache::new(lit(tol), lit(acc));
        let x = rel(&exact.compare_segments(&segs, i, j));
        let y = rel(&exact.compare_segments(&segs, j, i));
        check("swapped-is-mirrored", from_bool(mirrored(&x, &y)));
        check("asking-again-is-the-same", from_bool(rel(&exact.compare_segments(&segs, i, j)) == x));
        judge(if first == 0 { &x } else { &y }, &a, &b, lit(0.0), tol, acc);
        let u = rel(&sloppy.compare_segments(&segs, i, j));
        let v = rel(&sloppy.compare_segments(&segs, j, i));
        check("swapped-is-mirrored-with-slop", from_bool(mirrored(&u, &v)));
        // the allowance for heights only turns strict regions into close ones
        let w = if first == 0 { &u } else { &v };
        let z = if first == 0 { &x } else { &y };
        check("slop-covers-the-heights", from_bool(!w.is_empty()) & eq(w[0].0, lit(top)) & eq(w[w.len() - 1].1, lit(bottom)));
        for k in 1..64 {
            let h = top + (bottom - top) * k as f64 / 64.0;
            let at = |e: &E| e.iter().find(|e| val(e.0) <= h && h <= val(e.1)).map(|e| e.2);
            let near = |o| z.iter().any(|e| e.2 == o && val(e.0) - tol * 1.01 <= h && h <= val(e.1) + tol * 1.01);
            let ok = match (at(w), at(z)) {
                (Some(ls::curve::Order::Ish), _) => near(ls::curve::Order::Ish) || (near(ls::curve::Order::Left) && near(ls::curve::Order::Right)),
                (Some(o), Some(p)) => o == p || near(o),
                _ => false,
            };
            check("slop-only-widens-closeness", from_bool(ok));
        }
    }
    cover("done");
}

// ---------------------------------------------------------------- estimates

/// The parabola that stands for a curve.  Params: kind, n0, n; run with move=1.
fn parabola() {
    let lim = param("lim", 500);
    let n = pick("pair", param("n0", 0), param("n0", 0) + param("n", 8));
    let (a, b) = pair(param("kind", 0), n, 2f64.powi(-20));
    let mid = (a[0].1 + a[3].1) / 2.0;
    let t = (input("tx", -lim, lim, 0), lit(-mid));
    if a[3].1 - a[0].1 < 1e-3 || b[3].1 - b[0].1 < 1e-3 {
        cover("flat");
        return;
    }
    let est = |c: &Cub| ls::curve::EstParab::from_cubic(cubic(c, t));
    let (ea, eb) = (est(&a), est(&b));
    let inside = |label: &str, e: &ls::curve::EstParab, x: F, y: f64| {
        let y = y - mid;
        let p = e.c0 + e.c1 * lit(y) + e.c2 * lit(y * y);
        let f = 1e-10 * (1.0 + val(e.c0).abs() + (val(e.c1) * y).abs() + (val(e.c2) * y * y).abs());
        check(label, le(p + e.dmin, x + lit(f)) & le(x, p + e.dmax + lit(f)));
    };
    let m = 48;
    for (c, e) in [(&a, &ea), (&b, &eb)] {
        for k in 0..=m {
            let q = at(c, k as f64 / m as f64);
            inside("curve-within-the-estimate", e, t.0 + lit(q.0), q.1);
        }
        let ends = [c[0], c[3]].map(|q| (q.0 - (val(e.c0 - t.0) + val(e.c1) * (q.1 - mid) + val(e.c2) * (q.1 - mid) * (q.1 - mid))).abs());
        check("estimate-meets-the-ends", from_bool(ends[0].max(ends[1]) < 1e-9 * (1.0 + val(e.c0 - t.0).abs() + val(e.c1).abs() + val(e.c2).abs())));
    }
    let (top, bottom) = (a[0].1.max(b[0].1), a[3].1.min(b[3].1));
    if top < bottom {
        let d = ea - eb;
        for k in 0..=m {
            let y = top + (bottom - top) * k as f64 / m as f64;
            inside("distance-within-the-estimate", &d, lit(x_at(&a, y) - x_at(&b, y)), y);
        }
        cover("difference");
    }
    cover("done");
}

/// Curves that are declared to separate at a common end really do.  Params: kind, n0, n; run with move=1.
fn transversal() {
    let lim = param("lim", 500);
    let n = pick("pair", param("n0", 0), param("n0", 0) + param("n", 8));
    let (a, b) = pair(param("kind", 0), n, 2f64.powi(-20));
    let t = (input("tx", -lim, lim, 0), input("ty", -lim, lim, 0));
    let m = 64;
    for (gap, part, scale) in [(0.0, 1.0, 1.0), (0.0, 0.5, 1.0), (0.0, 0.125, 1.0), (0.25, 0.75, 1.0), (2f64.powi(-18), 0.25, 1.0), (0.0, 0.75, 1.0 / 64.0), (0.0, 1.0, 16.0)] {
        let (a, b) = (a.map(|q| (q.0 * scale, q.1 * scale)), b.map(|q| (q.0 * scale, q.1 * scale)));
        for (p, q, tilt) in [(&a, &b, f64::NAN), (&b, &a, f64::NAN), (&a, &b, 0.01), (&b, &a, 0.01), (&a, &b, 0.1), (&b, &a, 0.1), (&a, &b, 0.5), (&b, &a, 0.5)] {
            // q moved so that its end i is beside that of p, and tilted so that it just crosses p between
            // there and the height given by `part`
            let moved = |i: usize| {
                let mut q: Cub = q.map(|z| (z.0 - q[i].0 + p[i].0 + gap, z.1 - q[i].1 + p[i].1));
                if !tilt.is_nan() {
                    let (o, e) = (q[i], if i == 0 { p[3].1.min(q[3].1) } else { p[0].1.max(q[0].1) });
                    let s = (1..=m).map(|k| o.1 + (e - o.1) * part * k as f64 / m as f64).map(|y| (x_at(p, y) - x_at(&q, y)) / (y - o.1).abs()).fold(f64::MIN, f64::max);
                    if s.is_finite() {
                        q = q.map(|z| (z.0 + (s - tilt) * (z.1 - o.1).abs(), z.1));
                    }
                }
                q
            };
            let in_order = |l: &Cub, r: &Cub, u: f64, v: f64| (0..=m).all(|k| {
                let y = u + (v - u) * k as f64 / m as f64;
                x_at(l, y) <= x_at(r, y) + 1e-9
            });
            // below a common start
            let r = moved(0);
            let (top, bottom) = (p[0].1, p[3].1.min(r[3].1));
            let y = top + (bottom - top) * part;
            if top < y {
                if ls::curve::transverse::transversal_after(cubic(p, t), cubic(&r, t), t.1 + lit(y)) {
                    check("separate-below-a-common-start", from_bool(in_order(p, &r, top, y)));
                    cover("below");
                } else {
                    cover("not below");
                }
            }
            // above a common end
            let r = moved(3);
            let (top, bottom) = (p[0].1.max(r[0].1), p[3].1);
            let y = bottom - (bottom - top) * part;
            if y < bottom {
                if ls::curve::transverse::transversal_before(cubic(p, t), cubic(&r, t), t.1 + lit(y)) {
                    check("separate-above-a-common-end", from_bool(in_order(p, &r, y, bottom)));
                    cover("above");
                } else {
                    cover("not above");
                }
            }
        }
    }
    cover("done");
}

fn main() {
    run_cli(&[("order", order), ("cache", cache), ("parabola", parabola), ("transversal", transversal)]);
}
