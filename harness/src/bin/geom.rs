//! Geometry of single curves: concrete heights, symbolic horizontal coordinates.
use harness::*;
use linesweeper::geom::{monotonic_pieces, Segment};
use linesweeper::Segments;

/// Heights of the four control points, not monotone.
fn heights(kind: i64, r: &mut Rng) -> [f64; 4] {
    let mut h = [0.0; 4];
    for y in &mut h {
        *y = r.next(17) as f64 - 8.0;
    }
    match kind {
        // level at an end
        1 => h[1] = h[0],
        2 => h[2] = h[3],
        // an arch
        3 => h[3] = h[0],
        // closes on itself
        4 => {
            h[2] = h[1];
            h[3] = h[0];
        }
        // almost monotone
        5 => {
            h.sort_by(|a, b| a.partial_cmp(b).unwrap());
            h.swap(1, 2);
        }
        // a quadratic, raised
        6 => {
            let (a, m, b) = (h[0], h[1], h[2]);
            h = [a, a + (m - a) * 2.0 / 3.0, b + (m - b) * 2.0 / 3.0, b];
        }
        // barely non-monotone
        7 => {
            h.sort_by(|a, b| a.partial_cmp(b).unwrap());
            h[1] = h[0] - 2f64.powi(-(r.next(30) as i32));
        }
        // an S with a long flat middle
        8 => {
            h[3] = h[0] + 9.0;
            h[1] = h[0] + 9.0;
            h[2] = h[0];
        }
        _ => {}
    }
    h
}

fn bez(h: &[f64; 4], t: f64) -> f64 {
    let m = |a: f64, b: f64| a + (b - a) * t;
    let (a, b, c) = (m(h[0], h[1]), m(h[1], h[2]), m(h[2], h[3]));
    m(m(a, b), m(b, c))
}
fn weights(t: f64) -> [f64; 4] {
    let u = 1.0 - t;
    // multiples of 2^-44, so that forms in them stay short
    [u * u * u, 3.0 * u * u * t, 3.0 * u * t * t, t * t * t].map(|w| (w * 2f64.powi(44)).round() / 2f64.powi(44))
}
/// |sum w_i x_i - p| <= m
fn close(w: &[f64; 4], x: &[F; 4], p: F, m: f64) -> Fm {
    let mut d: Vec<(f64, F)> = (0..4).map(|i| (w[i], x[i])).collect();
    d.push((-1.0, p));
    within(&d, m)
}
fn symbolic_xs() -> [F; 4] {
    let lim = param("lim", 100);
    [0, 1, 2, 3].map(|i| input(&format!("x{i}"), -lim, lim, 0))
}
fn rng(kind: i64, n: i64) -> Rng {
    let mut r = Rng(0x9e3779b97f4a7c15 ^ (kind as u64) << 40 ^ (n as u64 + 1) * 0x2545f4914f6cdd1d);
    for _ in 0..4 {
        r.next(2);
    }
    r
}

/// The y-monotone pieces of a cubic.  Params: kind, n0, n.
fn pieces() {
    let kind = param("kind", 0);
    let n = pick("curve", param("n0", 0), param("n0", 0) + param("n", 8));
    let h = heights(kind, &mut rng(kind, n));
    let x = symbolic_xs();
    let p = |i: usize| KPoint::new(x[i], lit(h[i]));
    let c = kurbo::CubicBez::new(p(0), p(1), p(2), p(3));
    let ps = monotonic_pieces(c);
    check("at-most-three-pieces", from_bool(ps.len() <= 3));
    if h.iter().any(|y| *y != h[0]) || h[0] != h[3] {
        check("at-least-one-piece", from_bool(!ps.is_empty()));
    }
    let mut last: Option<(f64, KPoint)> = None;
    for q in &ps {
        let (t0, t1) = (val(q.start_t), val(q.end_t));
        check("parameters-increase", from_bool(t0 < t1 && last.map_or(true, |l| l.0 <= t0)));
        // the pieces left out, if any, are points
        match last {
            Some((t, e)) if t == t0 => check("pieces-join", eq(e.x, q.piece.p0.x) & eq(e.y, q.piece.p0.y)),
            Some((t, _)) => check("gap-is-a-point", from_bool(t0 - t < 1e-6)),
            None => check("starts-at-the-start", from_bool(t0 < 1e-6)),
        }
        last = Some((t1, q.piece.p3));
        let g = [q.piece.p0, q.piece.p1, q.piece.p2, q.piece.p3];
        let gy = g.map(|p| val(p.y));
        let s = if gy[3] >= gy[0] { 1.0 } else { -1.0 };
        let mut mono = true;
        let (mut top, mut far) = (gy[0], 0f64);
        for k in 0..=32 {
            let t = k as f64 / 32.0;
            let y = bez(&gy, t);
            mono &= s * (y - top) >= -1e-9;
            top = if s > 0.0 { top.max(y) } else { top.min(y) };
            far = far.max((y - bez(&h, t0 + t * (t1 - t0))).abs());
        }
        check("piece-is-monotone", from_bool(mono));
        check("piece-has-the-curve's-heights", from_bool(far < 1e-6));
        // a level piece encloses nothing, and is replaced by the line between its ends
        let step = if gy[0] == gy[3] { 4 } else { 1 };
        for k in (0..=4).step_by(step) {
            let t = k as f64 / 4.0;
            let w = weights(t);
            let v = weights(t0 + t * (t1 - t0));
            let mut d: Vec<(f64, F)> = (0..4).map(|i| (w[i], g[i].x)).collect();
            d.extend((0..4).map(|i| (-v[i], x[i])));
            check("piece-lies-on-the-curve", within(&d, 1e-6));
        }
    }
    if let Some((t, e)) = last {
        check("ends-at-the-end", from_bool(t == 1.0) | from_bool(1.0 - t < 1e-6));
        check("last-point", within(&[(1.0, e.x), (-1.0, x[3])], 1e-6) & from_bool((val(e.y) - h[3]).abs() < 1e-6));
    }
    cover("done");
    cover(["pieces:0", "pieces:1", "pieces:2", "pieces:3"][ps.len()]);

    // the same curve in a path: its pieces are linked in order
    let mut path = BezPath::new();
    path.move_to(p(0));
    path.curve_to(p(1), p(2), p(3));
    path.close_path();
    let mut segs = Segments::default();
    let r = segs.add_bez_path(&path);
    check("closed-path-accepted", from_bool(r.is_ok()));
    if r.is_ok() {
        segs.check_invariants();
        let ids: Vec<_> = segs.indices().collect();
        for i in &ids {
            let j = segs.contour_next(*i);
            check("closed-path-stays-closed", from_bool(j.is_some()));
            if let Some(j) = j {
                let (a, b) = (segs.oriented_end(*i), segs.oriented_start(j));
                check("linked-pieces-meet", eq(a.x, b.x) & eq(a.y, b.y));
                check("links-are-inverse", from_bool(segs.contour_prev(j) == Some(*i)));
            }
            let s = &segs[*i];
            let (a, b) = (s.start(), s.end());
            check("stored-downwards", lt(a.y, b.y) | (eq(a.y, b.y) & le(a.x, b.x)));
        }
        check("every-piece-enters", from_bool(segs.entrances().len() == ids.len()));
        check("every-sloping-piece-exits", from_bool(segs.exits().len() == ids.iter().filter(|i| val(segs[**i].start().y) != val(segs[**i].end().y)).count()));
    }
}

/// One monotone segment.  Params: kind, n0, n (as for `pair`; its first curve), line=1.
fn segment() {
    let kind = param("kind", 0);
    let n = pick("curve", param("n0", 0), param("n0", 0) + param("n", 8));
    let (c, _) = pair(kind, n, 1e-3);
    let line = param("line", 0) == 1;
    let mut x = symbolic_xs();
    let mut h = [c[0].1, c[1].1, c[2].1, c[3].1];
    if line {
        let (a, b) = (x[0], x[3]);
        for i in 1..3 {
            let t = i as f64 / 3.0;
            x[i] = a * lit(1.0 - t) + b * lit(t);
            h[i] = h[0] + (h[3] - h[0]) * t;
        }
    }
    let p = |i: usize| linesweeper::Point::new(x[i], lit(h[i]));
    let s = if line { Segment::straight(p(0), p(3)) } else { Segment::monotonic_cubic(p(0), p(1), p(2), p(3)) };
    check("line-if-line", from_bool(s.is_line() == line));
    check("not-horizontal", from_bool(!s.is_horizontal()));
    let ends = [(s.start(), 0), (s.end(), 3)];
    for (q, i) in ends {
        check("ends-are-kept", eq(q.x, x[i]) & eq(q.y, lit(h[i])));
        check("ends-at-their-heights", eq(s.at_y(lit(h[i])), x[i]));
    }
    let k = s.to_kurbo_cubic();
    for (i, q) in [k.p0, k.p1, k.p2, k.p3].iter().enumerate() {
        check("as-a-cubic", within(&[(1.0, q.x), (-1.0, x[i])], 1e-9) & from_bool((val(q.y) - h[i]).abs() < 1e-9));
    }
    let (min, max) = (s.min_x(), s.max_x());
    let m = 1e-5;
    let t_at = |y: f64| {
        let (mut lo, mut hi) = (0.0, 1.0);
        for _ in 0..64 {
            let t = 0.5 * (lo + hi);
            if bez(&h, t) < y {
                lo = t
            } else {
                hi = t
            }
        }
        0.5 * (lo + hi)
    };
    // near its ends a curve may be nearly horizontal: allow for a small error of height
    let slack = |y: f64| 4.0 * param("lim", 100) as f64 * (t_at(y + 1e-10) - t_at(y - 1e-10)) + m;
    for i in 1..16 {
        let y = h[0] + (h[3] - h[0]) * i as f64 / 16.0;
        let a = s.at_y(lit(y));
        check("on-the-curve-at-a-height", close(&weights(t_at(y)), &x, a, slack(y)));
        let tiny = lit(1e-9);
        check("between-the-bounds", le(min - tiny, a) & le(a, max + tiny));
        // the part between two heights
        if i % 5 == 0 && !line {
            let z = y + (h[3] - y) * 0.375;
            let q = ls::curve::y_subsegment(k, lit(y), lit(z));
            check("part-has-the-heights", eq(q.p0.y, lit(y)) & eq(q.p3.y, lit(z)));
            check("part-begins-there", close(&weights(t_at(y)), &x, q.p0.x, slack(y)));
            check("part-ends-there", close(&weights(t_at(z)), &x, q.p3.x, slack(z)));
            let u = 0.5 * (t_at(y) + t_at(z));
            let w = weights(0.5);
            let g = [q.p0, q.p1, q.p2, q.p3];
            let mut d: Vec<(f64, F)> = (0..4).map(|i| (w[i], g[i].x)).collect();
            let v = weights(u);
            d.extend((0..4).map(|i| (-v[i], x[i])));
            check("part-lies-on-the-curve", within(&d, slack(y).max(slack(z))));
            check("part-has-the-curve's-heights", from_bool((bez(&g.map(|p| val(p.y)), 0.5) - bez(&h, u)).abs() < 1e-6));
        }
    }
    // bounds: attained values lie between them, and they are between control points
    for i in (0..4).step_by(if line { 3 } else { 1 }) {
        check("bounds-cover-the-control-points", le(min, x[i]) & le(x[i], max));
    }
    check("lower-bound-is-tight", any((0..4).map(|i| eq(min, x[i]))));
    check("upper-bound-is-tight", any((0..4).map(|i| eq(max, x[i]))));
    cover("done");
}

/// The least and greatest x between two heights.
fn extremes(c: &Cub, y0: f64, y1: f64) -> (f64, f64) {
    let t = |y: f64| {
        let (mut lo, mut hi) = (0.0, 1.0);
        for _ in 0..64 {
            let t = 0.5 * (lo + hi);
            if at(c, t).1 < y {
                lo = t
            } else {
                hi = t
            }
        }
        0.5 * (lo + hi)
    };
    let (a, b) = (t(y0), t(y1));
    let (mut l, mut h) = (f64::MAX, f64::MIN);
    for j in 0..=64 {
        let x = at(c, a + (b - a) * j as f64 / 64.0).0;
        l = l.min(x);
        h = h.max(x);
    }
    (l, h)
}

/// Bounds near a height, at any position.  Params: kind, n0, n, line; run with move=1.
fn bounds() {
    let kind = param("kind", 0);
    let lim = param("lim", 500);
    let n = pick("curve", param("n0", 0), param("n0", 0) + param("n", 8));
    let (c, _) = pair(kind, n, 1e-3);
    let t = (input("tx", -lim, lim, 0), input("ty", -lim, lim, 0));
    let q = cubic(&c, t);
    let line = kind == 10;
    let s = if line { Segment::straight(q.p0.into(), q.p3.into()) } else { Segment::from_kurbo_cubic(q) };
    for (e, k) in [(2f64.powi(-20), 0), (2f64.powi(-8), 1), (0.25, 2), (2.0, 3)] {
        for i in 0..=6 {
            let y = c[0].1 + (c[3].1 - c[0].1) * i as f64 / 6.0;
            let yy = t.1 + lit(y);
            // the height itself may fall outside by a rounding error
            let yy = yy.max(q.p0.y).min(q.p3.y);
            let (lo, hi) = (s.lower(yy, lit(e)) - t.0, s.upper(yy, lit(e)) - t.0);
            let (l, h) = extremes(&c, y - e * 0.999 + 1e-9, y + e * 0.999 - 1e-9);
            let m = 1e-7;
            check("lower-is-a-lower-bound", le(lo, lit(l - e + m)));
            check("upper-is-an-upper-bound", le(lit(h + e - m), hi));
            // and no worse than the extremes over a slightly larger window
            let (l2, h2) = extremes(&c, y - e * 1.001 - 1e-9, y + e * 1.001 + 1e-9);
            let g = (h2 - l2) / 16.0 + 1e-6;
            check("lower-is-close", le(lit(l2 - e - g), lo));
            check("upper-is-close", le(hi, lit(h2 + e + g)));
        }
        let _ = k;
    }
    cover("done");
}

fn main() {
    run_cli(&[("pieces", pieces), ("segment", segment), ("bounds", bounds)]);
}
