//! Concrete curved drawings at a symbolic position.
use harness::*;

/// A drawing: two sets, as path data in absolute coordinates (M, L, Q, C, Z).
const DRAWINGS: &[(&str, &str)] = &[
    // 0: two discs that overlap
    ("M 10 0 C 10 5.52 5.52 10 0 10 C -5.52 10 -10 5.52 -10 0 C -10 -5.52 -5.52 -10 0 -10 C 5.52 -10 10 -5.52 10 0 Z",
     "M 18 3 C 18 8.52 13.52 13 8 13 C 2.48 13 -2 8.52 -2 3 C -2 -2.52 2.48 -7 8 -7 C 13.52 -7 18 -2.52 18 3 Z"),
    // 1: a disc over a square
    ("M 10 0 C 10 5.52 5.52 10 0 10 C -5.52 10 -10 5.52 -10 0 C -10 -5.52 -5.52 -10 0 -10 C 5.52 -10 10 -5.52 10 0 Z", "M -8 -8 L 8 -8 L 8 8 L -8 8 Z"),
    // 2: quadratic leaves crossing each other
    ("M 0 0 Q 10 4 20 0 Q 10 -4 0 0 Z", "M 10 -10 Q 14 0 10 10 Q 6 0 10 -10 Z"),
    // 3: S-curves that cross several times
    ("M 0 0 C 12 4 -12 8 0 12 L -10 12 L -10 0 Z", "M 2 0 C -10 4 14 8 2 12 L 12 12 L 12 0 Z"),
    // 4: a curve with a loop (crosses itself), and a bar through it
    ("M 0 0 C 30 20 -20 20 10 0 Z", "M -5 5 L 15 5 L 15 7 L -5 7 Z"),
    // 5: shared curved edge
    ("M 0 0 C 6 2 6 8 0 10 L -8 10 L -8 0 Z", "M 0 0 C 6 2 6 8 0 10 L 9 10 L 9 0 Z"),
    // 6: a ring cut by a wedge
    ("M 10 0 C 10 5.52 5.52 10 0 10 C -5.52 10 -10 5.52 -10 0 C -10 -5.52 -5.52 -10 0 -10 C 5.52 -10 10 -5.52 10 0 Z M 5 0 C 5 -2.76 2.76 -5 0 -5 C -2.76 -5 -5 -2.76 -5 0 C -5 2.76 -2.76 5 0 5 C 2.76 5 5 2.76 5 0 Z",
     "M 0 0 L 15 -4 L 15 9 Z"),
    // 7: tall thin arcs close to each other
    ("M 0 0 C 1 10 1 20 0 30 L -3 30 L -3 0 Z", "M 0.5 -1 C 0.25 10 1.5 20 0.25 31 L 4 31 L 4 -1 Z"),
    // 8: flat arches
    ("M -20 0 C -10 1 10 1 20 0 L 20 3 L -20 3 Z", "M -15 2 C -5 -1 5 -1 15 2 Z"),
    // 9: tangent discs and a disc inside
    ("M 10 0 C 10 5.52 5.52 10 0 10 C -5.52 10 -10 5.52 -10 0 C -10 -5.52 -5.52 -10 0 -10 C 5.52 -10 10 -5.52 10 0 Z",
     "M 30 0 C 30 5.52 25.52 10 20 10 C 14.48 10 10 5.52 10 0 C 10 -5.52 14.48 -10 20 -10 C 25.52 -10 30 -5.52 30 0 Z M 3 0 C 3 1.66 1.66 3 0 3 C -1.66 3 -3 1.66 -3 0 C -3 -1.66 -1.66 -3 0 -3 C 1.66 -3 3 -1.66 3 0 Z"),
    // 10: petals meeting in one point
    ("M 0 0 C 5 -8 15 -8 10 0 C 8 4 4 4 0 0 Z M 0 0 C -5 -8 -15 -8 -10 0 C -8 4 -4 4 0 0 Z", "M 0 0 C 6 4 6 12 0 10 C -6 12 -6 4 0 0 Z"),
    // 11: a curve that turns twice in height
    ("M 0 0 C 8 30 16 -30 24 0 L 24 12 L 0 12 Z", "M -2 2 C 6 -20 18 20 26 -2 L 26 6 L -2 6 Z"),
];

fn parse(d: &str) -> Vec<(char, Vec<(f64, f64)>)> {
    let mut out = vec![];
    let mut nums: Vec<f64> = vec![];
    let mut cmd = ' ';
    let mut flush = |cmd: char, nums: &mut Vec<f64>| {
        if cmd != ' ' {
            out.push((cmd, nums.chunks(2).map(|c| (c[0], c[1])).collect()));
        }
        nums.clear();
    };
    for w in d.split_whitespace() {
        match w.parse::<f64>() {
            Ok(n) => nums.push(n),
            Err(_) => {
                flush(cmd, &mut nums);
                cmd = w.chars().next().unwrap();
            }
        }
    }
    flush(cmd, &mut nums);
    out
}

type Data = Vec<(char, Vec<Q>)>;

/// A path with lattice points.  Kinds: 20 polygons on a small lattice, 21 on a larger one, 22 with curved
/// edges, 23 many small rectilinear or diagonal contours, 24 long polygons, 25 curved, on a larger lattice,
/// 26 ellipses and half ellipses, 27 arches with few common tops.
fn random_set(kind: i64, r: &mut Rng) -> Data {
    let m = match kind {
        21 => 41,
        24 => 13,
        25 => 33,
        _ => 7,
    };
    let contours = match kind {
        23 => 2 + r.next(4),
        26 => 1 + r.next(3),
        24 => 1,
        _ => 1 + r.next(2),
    };
    let mut d: Data = vec![];
    for _ in 0..contours {
        let mut pt = || (r.next(m) as f64, r.next(m) as f64);
        if kind == 26 {
            let (c, w, h, x) = (pt(), 1.0 + pt().0, 1.0 + pt().1, pt());
            let k = 0.5522847498307936;
            // quarters, from the top
            let q = |a: Q, b: Q| ('C', vec![(c.0 + w * (a.0 + k * b.0), c.1 + h * (a.1 + k * b.1)), (c.0 + w * (b.0 + k * a.0), c.1 + h * (b.1 + k * a.1)), (c.0 + w * b.0, c.1 + h * b.1)]);
            let mut ring = vec![(0., -1.), (1., 0.), (0., 1.), (-1., 0.)];
            if x.0 >= 4.0 {
                ring.reverse();
            }
            ring.rotate_left(x.1 as usize % 4);
            d.push(('M', vec![(c.0 + w * ring[0].0, c.1 + h * ring[0].1)]));
            let quarters = if x.0 == 0.0 { 2 } else { 4 };
            d.extend((0..quarters).map(|i| q(ring[i], ring[(i + 1) % 4])));
            d.push(('Z', vec![]));
            continue;
        }
        if kind == 27 {
            let (c, u, v) = (pt(), pt(), pt());
            let (x, y, h, w, k) = ((c.0 / 4.0).floor(), (c.1 / 4.0).floor(), [2.0, 4.0, -4.0, 8.0][u.0 as usize % 4], 1.0 + u.1, v.0 - 3.0);
            let (p, q, o) = ((x - w - k, y + h), (x + w - k, y + h), (x + k, y - h));
            let (p, q) = if v.1 >= 4.0 { (p, q) } else { (q, p) };
            d.push(('M', vec![p]));
            d.push(('Q', vec![o, q]));
            if v.1 % 2.0 == 0.0 {
                d.push(('L', vec![(q.0, y + 1.5 * h)]));
                d.push(('L', vec![(p.0, y + 1.5 * h)]));
            }
            d.push(('Z', vec![]));
            continue;
        }
        if kind == 23 {
            let (c, w, h) = (pt(), 1.0 + pt().0 / 2.0, 1.0 + pt().1 / 2.0);
            let rel = match r.next(4) {
                0 => vec![(0., 0.), (w, 0.), (w, h), (0., h)],
                1 => vec![(0., 0.), (0., h), (w, h), (w, 0.)],
                2 => vec![(0., -w), (w, 0.), (0., w), (-w, 0.)],
                _ => vec![(0., 0.), (w, w), (w, 0.), (0., w)],
            };
            d.push(('M', vec![(c.0 + rel[0].0, c.1 + rel[0].1)]));
            d.extend(rel[1..].iter().map(|q| ('L', vec![(c.0 + q.0, c.1 + q.1)])));
            d.push(('Z', vec![]));
            continue;
        }
        let start = pt();
        d.push(('M', vec![start]));
        let edges = match kind {
            24 => 8 + pt().0 as i64 / 2 * 2,
            _ => 2 + pt().0 as i64 % 4,
        };
        for _ in 0..edges {
            let (a, b, c) = (pt(), pt(), pt());
            let curved = matches!(kind, 22 | 25);
            match if curved { pt().0 as i64 % 3 } else { 0 } {
                1 => d.push(('Q', vec![a, b])),
                2 => d.push(('C', vec![a, b, c])),
                _ => d.push(('L', vec![a])),
            }
        }
        // closed in one of three ways
        if r.next(3) == 0 {
            d.push(('L', vec![start]));
        }
        if r.next(3) != 0 || d.last().unwrap().1.last() != Some(&start) {
            d.push(('Z', vec![]));
        }
    }
    d
}

/// The drawing asked for: number `draw`, or one made from two curves (`kind`, n0, n; both=1: on the same side).
fn drawing() -> (Data, Data) {
    let swap = param("swap", 0) == 1;
    let (a, b) = if param("kind", -1) < 0 {
        let d = DRAWINGS[param("draw", 0) as usize];
        (parse(d.0), parse(d.1))
    } else {
        let n = pick("pair", param("n0", 0), param("n0", 0) + param("n", 8));
        if param("kind", 0) >= 20 {
            let mut r = Rng(0x9e3779b97f4a7c15 ^ (param("kind", 0) as u64) << 40 ^ (n as u64 + 1) * 0x2545f4914f6cdd1d);
            for _ in 0..4 {
                r.next(2);
            }
            let mut a = random_set(param("kind", 0), &mut r);
            let b = random_set(param("kind", 0), &mut r);
            // everything in one of the sets, and the other one empty
            return match param("alone", 0) {
                0 => (a, b),
                k => {
                    a.extend(b);
                    if k == 1 {
                        (a, vec![])
                    } else {
                        (vec![], a)
                    }
                }
            };
        }
        // how close close curves are: as close as the library is asked to look, or much less
        let close = match (param("close", 0), param("eps", 0)) {
            (0, _) => 1e-3,
            (_, 0) => 1e-6,
            (_, e) => 2f64.powi(-e as i32),
        };
        let (a, b) = pair(param("kind", 0), n, close);
        let side = |c: &Cub, x: f64, back: bool| {
            let (s, e) = if back { (c[3].1, c[0].1) } else { (c[0].1, c[3].1) };
            let mut d: Data = if back { vec![('M', vec![c[3]]), ('C', vec![c[2], c[1], c[0]])] } else { vec![('M', vec![c[0]]), ('C', vec![c[1], c[2], c[3]])] };
            d.extend([('L', vec![(x, e)]), ('L', vec![(x, s)]), ('Z', vec![])]);
            d
        };
        (side(&a, -24.0, false), side(&b, if param("both", 0) == 1 { -20.0 } else { 24.0 }, n % 2 == 1))
    };
    if swap {
        (b, a)
    } else {
        (a, b)
    }
}

/// Where the drawing is: a symbolic place, in a square around the origin or (`at`) around a point 2^at away in one of
/// eight directions (`dir`).
fn position() -> P {
    let lim = param("lim", 500);
    let (x, y) = [(1.0, 0.0), (0.0, 1.0), (-1.0, 0.0), (0.0, -1.0), (1.0, 1.0), (-1.0, 1.0), (-1.0, -1.0), (1.0, -1.0)][param("dir", 0) as usize];
    let far = if param("at", 0) > 0 { 2f64.powi(param("at", 0) as i32) } else { 0.0 };
    (lit(x * far) + input("tx", -lim, lim, 0), lit(y * far) + input("ty", -lim, lim, 0))
}

/// The tolerance asked for, or the default one.
fn tolerance() -> f64 {
    if param("eps", 0) > 0 {
        2f64.powi(-param("eps", 0) as i32)
    } else {
        // everything is within 1024 of its place
        let m = if param("at", 0) > 0 { 2f64.powi(param("at", 0) as i32) } else { 0.0 } + 1024.0;
        (m * 64.0 * f64::EPSILON).max(1e-6)
    }
}

fn path(d: &Data, t: P) -> BezPath {
    let mut p = BezPath::new();
    for (c, v) in d.iter().cloned() {
        let q: Vec<KPoint> = v.iter().map(|(x, y)| KPoint::new(t.0 + lit(*x), t.1 + lit(*y))).collect();
        match c {
            'M' => p.move_to(q[0]),
            'L' => p.line_to(q[0]),
            'Q' => p.quad_to(q[0], q[1]),
            'C' => p.curve_to(q[0], q[1], q[2]),
            _ => p.close_path(),
        }
    }
    p
}

/// Points along a Bezier curve of any degree, without the first.
fn flatten(p: &[Q], n: usize, out: &mut Vec<Q>) {
    for i in 1..=n {
        let mut w = p.to_vec();
        while w.len() > 1 {
            w = w.windows(2).map(|q| mix(q[0], q[1], i as f64 / n as f64)).collect();
        }
        out.push(w[0]);
    }
}

/// The paths as polylines that stay within `err` of them.
fn polylines(els: impl Iterator<Item = (char, Vec<Q>)>, err: f64) -> Vec<Vec<Q>> {
    let mut out: Vec<Vec<Q>> = vec![];
    for (c, v) in els {
        match c {
            'M' => out.push(vec![v[0]]),
            'Z' => {
                let l = out.last_mut().unwrap();
                let s = l[0];
                l.push(s);
            }
            _ => {
                let l = out.last_mut().unwrap();
                let mut p = vec![*l.last().unwrap()];
                p.extend(v);
                let bend = p.windows(3).map(|w| (w[0].0 - 2.0 * w[1].0 + w[2].0).hypot(w[0].1 - 2.0 * w[1].1 + w[2].1)).fold(0.0, f64::max);
                let bend = bend * ((p.len() - 1) * (p.len() - 2)) as f64;
                flatten(&p, if c == 'L' { 1 } else { ((bend / (8.0 * err)).sqrt().ceil() as usize).clamp(4, 4096) }, l);
            }
        }
    }
    out
}

/// What tells points apart: symbolically, the place in the drawing's frame; natively, where subtracting would
/// round, the place itself.
fn place(q: KPoint, t: P) -> Q {
    if is_symbolic(t.0) {
        (val(q.x - t.0), val(q.y - t.1))
    } else {
        (val(q.x), val(q.y))
    }
}

/// The output path relative to `t`.
fn relative(p: &BezPath, t: P) -> Vec<(char, Vec<Q>)> {
    let r = |q: &KPoint| {
        let (x, y) = (q.x - t.0, q.y - t.1);
        check("moved-with-the-input", from_bool(!is_symbolic(x) && !is_symbolic(y)));
        (val(x), val(y))
    };
    p.elements()
        .iter()
        .map(|e| match e {
            PathEl::MoveTo(a) => ('M', vec![r(a)]),
            PathEl::LineTo(a) => ('L', vec![r(a)]),
            PathEl::QuadTo(a, b) => ('Q', vec![r(a), r(b)]),
            PathEl::CurveTo(a, b, c) => ('C', vec![r(a), r(b), r(c)]),
            PathEl::ClosePath => ('Z', vec![]),
        })
        .collect()
}

fn wind(ps: &[Vec<Q>], q: Q) -> i32 {
    let mut w = 0;
    for p in ps {
        for e in p.windows(2) {
            let (a, b) = (e[0], e[1]);
            let x = || a.0 + (b.0 - a.0) * (q.1 - a.1) / (b.1 - a.1);
            if a.1 <= q.1 && q.1 < b.1 && x() < q.0 {
                w += 1;
            }
            if b.1 <= q.1 && q.1 < a.1 && x() < q.0 {
                w -= 1;
            }
        }
    }
    w
}

fn dist(ps: &[Vec<Q>], q: Q) -> f64 {
    let mut d = f64::MAX;
    for p in ps {
        for e in p.windows(2) {
            let (a, b) = (e[0], e[1]);
            let (ux, uy) = (b.0 - a.0, b.1 - a.1);
            let l = ux * ux + uy * uy;
            let t = if l == 0.0 { 0.0 } else { (((q.0 - a.0) * ux + (q.1 - a.1) * uy) / l).clamp(0.0, 1.0) };
            let (x, y) = (a.0 + ux * t - q.0, a.1 + uy * t - q.1);
            d = d.min((x * x + y * y).sqrt());
        }
    }
    d
}

fn inside(r: FillRule, w: i32) -> bool {
    match r {
        FillRule::EvenOdd => w % 2 != 0,
        FillRule::NonZero => w != 0,
    }
}

/// What is expected of a drawing, at the origin.
struct Oracle {
    edges: Vec<Vec<Q>>,
    /// boxes of runs of edges
    boxes: Vec<(Q, Q, usize, usize, usize)>,
    points: Vec<(Q, bool)>,
    tol: f64,
}
impl Oracle {
    fn dist(&self, q: Q) -> f64 {
        let gap = |b: &(Q, Q, usize, usize, usize)| {
            let d = |lo: f64, hi: f64, x: f64| (lo - x).max(x - hi).max(0.0);
            d(b.0 .0, b.1 .0, q.0).max(d(b.0 .1, b.1 .1, q.1))
        };
        let mut best = f64::MAX;
        for b in &self.boxes {
            if gap(b) < best {
                best = best.min(dist(&[self.edges[b.2][b.3..b.4].to_vec()], q));
            }
        }
        best
    }
}
thread_local!(static ORACLE: std::cell::RefCell<Option<(Data, Data, std::rc::Rc<Oracle>)>> = std::cell::RefCell::new(None));

fn oracle(da: &Data, db: &Data, op: BinaryOp, ru: FillRule) -> std::rc::Rc<Oracle> {
    if let Some((x, y, o)) = ORACLE.with(|o| o.borrow().clone()) {
        if x == *da && y == *db {
            return o;
        }
    }
    let a = polylines(da.iter().cloned(), 1e-5);
    let b = polylines(db.iter().cloned(), 1e-5);
    // The default accuracy is 1e-6, and the polylines are 1e-5 off.
    let tol = 5e-5 + 4.0 * tolerance();
    let edges: Vec<Vec<Q>> = a.iter().chain(&b).cloned().collect();
    let mut boxes = vec![];
    for (k, e) in edges.iter().enumerate() {
        let mut i = 0;
        while i + 1 < e.len() {
            let j = (i + 33).min(e.len());
            let (mut lo, mut hi) = (e[i], e[i]);
            for q in &e[i..j] {
                lo = (lo.0.min(q.0), lo.1.min(q.1));
                hi = (hi.0.max(q.0), hi.1.max(q.1));
            }
            boxes.push((lo, hi, k, i, j));
            i = j - 1;
        }
    }
    let mut o = Oracle { edges, boxes, points: vec![], tol };
    let (mut x0, mut x1, mut y0, mut y1) = (0f64, 0f64, 0f64, 0f64);
    for q in a.iter().chain(&b).flatten() {
        (x0, x1, y0, y1) = (x0.min(q.0), x1.max(q.0), y0.min(q.1), y1.max(q.1));
    }
    let m = 32;
    for i in 0..=m {
        for j in 0..=m {
            let q = (x0 - 1.0 + (x1 - x0 + 2.0) * (i as f64 + 0.137) / m as f64, y0 - 1.0 + (y1 - y0 + 2.0) * (j as f64 + 0.291) / m as f64);
            if o.dist(q) < 4.0 * tol {
                continue;
            }
            let (ia, ib) = (inside(ru, wind(&a, q)), inside(ru, wind(&b, q)));
            let expect = match op {
                BinaryOp::Union => ia || ib,
                BinaryOp::Intersection => ia && ib,
                BinaryOp::Difference => ia && !ib,
                BinaryOp::Xor => ia != ib,
            };
            o.points.push((q, expect));
        }
    }
    let o = std::rc::Rc::new(o);
    ORACLE.with(|x| *x.borrow_mut() = Some((da.clone(), db.clone(), o.clone())));
    o
}

/// How the contours relate to each other, judged at the oracle's points.
///
/// `corners` gives the points where the segments meet: a contour may not visit any of them twice.
fn structure(c: &Contours, outs: &[Vec<Vec<Q>>], or: &Oracle, t: P, corners: impl Fn() -> Vec<Q>) {
    let cs: Vec<_> = c.contours().collect();
    let n = cs.len();
    let ws: Vec<Vec<i32>> = outs.iter().map(|o| or.points.iter().map(|(q, _)| wind(o, *q)).collect()).collect();
    let vertices = |k: &BezPath| -> Vec<Q> {
        // the ends of the path elements
        let mut v: Vec<Q> = k.elements().iter().filter_map(|e| e.end_point()).map(|q| place(q, t)).collect();
        if v.len() > 1 && v[0] == v[v.len() - 1] {
            v.pop();
        }
        v
    };
    let vs: Vec<Vec<Q>> = cs.iter().map(|k| vertices(&k.path)).collect();
    for (i, k) in cs.iter().enumerate() {
        let want = if k.outer { 1 } else { -1 };
        let len = k.path.elements().len();
        let kind = |(i, e): (usize, &PathEl)| matches!(e, PathEl::MoveTo(_)) == (i == 0) && matches!(e, PathEl::ClosePath) == (i + 1 == len);
        check("contour-is-one-closed-subpath", from_bool(len > 2 && k.path.elements().iter().enumerate().all(kind)));
        check(
            if k.outer { "outer-contour-winds-once" } else { "inner-contour-winds-once-backwards" },
            from_bool(ws[i].iter().all(|w| *w == 0 || *w == want)),
        );
        match k.parent {
            None => check("root-contour-is-outer", from_bool(k.outer)),
            Some(p) => {
                let ok = p.0 < n && p.0 != i;
                check("parent-exists", from_bool(ok));
                if ok {
                    check("child-alternates", from_bool(k.outer != cs[p.0].outer));
                    check("child-inside-parent", from_bool(ws[i].iter().zip(&ws[p.0]).all(|(a, b)| *a == 0 || *b != 0)));
                    let mut shared: Vec<Q> = vs[i].iter().filter(|q| vs[p.0].contains(q)).copied().collect();
                    let touch = shared.len() > 1;
                    if touch {
                        let c = corners();
                        shared.retain(|q| c.contains(q));
                        check("contour-does-not-touch-itself-between-corners", from_bool(shared.len() > 1));
                    }
                    check(if k.outer { "island-shares-at-most-one-point-with-its-hole" } else { "hole-shares-at-most-one-point-with-its-outer" }, from_bool(shared.len() <= 1));
                }
            }
        }
        for j in 0..i {
            if cs[j].parent == k.parent {
                check("siblings-disjoint", from_bool(ws[i].iter().zip(&ws[j]).all(|(a, b)| *a == 0 || *b == 0)));
            }
        }
        let v = &vs[i];
        let twice: Vec<Q> = (0..v.len()).filter(|a| v[..*a].contains(&v[*a])).map(|a| v[a]).collect();
        let corner = !twice.is_empty() && {
            let c = corners();
            twice.iter().any(|q| c.contains(q))
        };
        check("contour-has-no-repeated-point", from_bool(!corner));
        check("contour-does-not-touch-itself-between-corners", from_bool(twice.is_empty() || corner));
    }
    let mut seen = vec![0; n];
    let mut ok = true;
    for g in &c.grouped() {
        for (m, idx) in g.iter().enumerate() {
            seen[idx.0] += 1;
            ok &= (m == 0) == c[*idx].parent.is_none();
            let mut r = *idx;
            for _ in 0..n {
                r = c[r].parent.unwrap_or(r);
            }
            ok &= r == g[0];
        }
    }
    check("grouped-is-the-containment-partition", from_bool(ok && seen.iter().all(|k| *k == 1)));
}

/// Params: draw (or kind, n0, n, both), op, rule, lim, swap.
fn boolop() {
    let t = position();
    let (da, db) = drawing();
    if param("show", 0) == 1 {
        for d in [&da, &db] {
            let w: Vec<String> = d.iter().map(|(c, v)| format!("{c} {}", v.iter().map(|q| format!("{} {}", q.0, q.1)).collect::<Vec<_>>().join(" "))).collect();
            eprintln!("{}", w.join(" "));
        }
    }
    let op = OPS[param("op", 0) as usize];
    let ru = RULES[param("rule", 0) as usize];
    let (pa, pb) = (path(&da, t), path(&db, t));
    let c = match param("eps", 0) {
        0 => ls::binary_op(&pa, &pb, ru, op).unwrap(),
        k => ls::binary_op_with_eps(&pa, &pb, ru, op, lit(2f64.powi(-k as i32))).unwrap(),
    };
    let or = oracle(&da, &db, op, ru);
    let outs: Vec<Vec<Vec<Q>>> = c.contours().map(|k| polylines(relative(&k.path, t).into_iter(), 1e-4)).collect();
    let all: Vec<Vec<Q>> = outs.iter().flatten().cloned().collect();
    let (mut ok, mut one) = (true, true);
    for (q, expect) in &or.points {
        let w = wind(&all, *q);
        if (w != 0) != *expect && param("show", 0) == 1 {
            eprintln!("{q:?} winds {w}, expected {expect}");
        }
        ok &= (w != 0) == *expect;
        one &= w == 0 || w == 1;
    }
    check("curved-set-semantics", from_bool(ok));
    check("curved-output-winds-0-or-1", from_bool(one));
    // every point of the output lies on the input
    let mut far = 0f64;
    for q in all.iter().flat_map(|l| l.iter().step_by(if l.len() > 600 { 8 } else if l.len() > 100 { 4 } else { 1 })) {
        if or.dist(*q) > far {
            far = or.dist(*q);
            if far > or.tol && param("show", 0) == 1 {
                eprintln!("{q:?} is {far} away");
            }
        }
    }
    check("curved-output-on-the-input", from_bool(far < or.tol));
    structure(&c, &outs, &or, t, || {
        let eps = tolerance();
        let top = ls::topology::Topology::<ls::topology::BinaryWindingNumber>::from_paths_binary(&pa, &pb, lit(eps)).unwrap();
        top.segment_indices().flat_map(|s| [s.first_half(), s.second_half()]).map(|h| place(top.point(h).to_kurbo(), t)).collect()
    });
    if param("show", 0) == 1 {
        for k in c.contours() {
            eprintln!("{:?} {}", k.parent, k.path.elements().len());
            for (c, v) in relative(&k.path, t) {
                eprintln!("   {c} {v:?}");
            }
        }
        eprintln!("far {far}");
    }
    for k in c.contours() {
        let ok = k.path.elements().iter().filter(|e| matches!(e, PathEl::MoveTo(_))).count() == 1 && matches!(k.path.elements().last(), Some(PathEl::ClosePath));
        check("contour-is-one-closed-subpath", from_bool(ok));
    }
    cover("done");
}

// ---------------------------------------------------------------- output curves

/// The bounding box of a subdivision is that of the curves it was made from.
fn bounds() {
    let t = position();
    let (da, db) = drawing();
    let top = ls::topology::Topology::<ls::topology::BinaryWindingNumber>::from_paths_binary(&path(&da, t), &path(&db, t), lit(tolerance())).unwrap();
    let r = top.bounding_box();
    let sides = [r.x0 - t.0, r.y0 - t.1, r.x1 - t.0, r.y1 - t.1];
    check("moved-with-the-input", from_bool(sides.iter().all(|s| !is_symbolic(*s))));
    let mut want = [f64::INFINITY, f64::INFINITY, f64::NEG_INFINITY, f64::NEG_INFINITY];
    for q in polylines(da.iter().chain(&db).cloned(), 1e-4).into_iter().flatten() {
        want = [want[0].min(q.0), want[1].min(q.1), want[2].max(q.0), want[3].max(q.1)];
    }
    let near = |i: usize, sign: f64| sign * (val(sides[i]) - want[i]) <= 1e-3;
    check("bounding-box-contains", from_bool(near(0, 1.0) && near(1, 1.0) && near(2, -1.0) && near(3, -1.0)));
    check("bounding-box-tight", from_bool(near(0, -1.0) && near(1, -1.0) && near(2, 1.0) && near(3, 1.0)));
    cover("done");
}

/// The x range of a y-monotone piece of path near a height, if it reaches it.
fn near(p: &[Q], y: f64, slop: f64) -> Option<(f64, f64)> {
    let n = p.len() - 1;
    if y < p[0].1 || p[n].1 < y {
        return None;
    }
    let eval = |t: f64| {
        let mut w = p.to_vec();
        while w.len() > 1 {
            w = w.windows(2).map(|q| mix(q[0], q[1], t)).collect();
        }
        w[0]
    };
    let at = |y: f64| {
        if y <= p[0].1 {
            return p[0].0;
        }
        if y >= p[n].1 {
            return p[n].0;
        }
        let (mut lo, mut hi) = (0.0, 1.0);
        for _ in 0..52 {
            let t = 0.5 * (lo + hi);
            if eval(t).1 < y {
                lo = t
            } else {
                hi = t
            }
        }
        eval(0.5 * (lo + hi)).0
    };
    let v = [at(y - slop), at(y), at(y + slop)];
    Some((v.iter().copied().fold(f64::MAX, f64::min), v.iter().copied().fold(f64::MIN, f64::max)))
}

/// The smallest derivative of the height of a Bezier curve (of degree at most 3) along it.
fn rises(e: &[Q]) -> f64 {
    let d: Vec<f64> = e.windows(2).map(|w| w[1].1 - w[0].1).collect();
    let ends = d[0].min(d[d.len() - 1]);
    if d.len() < 3 {
        return ends;
    }
    let (a, b, c) = (d[0], d[1], d[2]);
    let k = a - 2.0 * b + c;
    let t = (a - b) / k;
    if k > 0.0 && 0.0 < t && t < 1.0 {
        ends.min(a - (a - b) * (a - b) / k)
    } else {
        ends
    }
}

/// The curves laid out for a drawing.  Params: draw (or kind, n0, n, both), swap, eps; run with move=1.
fn positions() {
    let t = position();
    let (da, db) = drawing();
    let eps = tolerance();
    let top = ls::topology::Topology::<ls::topology::BinaryWindingNumber>::from_paths_binary(&path(&da, t), &path(&db, t), lit(eps)).unwrap();
    let out = top.compute_positions();
    let mut curves: Vec<Vec<Vec<Q>>> = vec![];
    for s in top.segment_indices() {
        let (p, q) = (top.point(s.first_half()), top.point(s.second_half()));
        let els = relative(&out[s].path, t);
        let mut c: Vec<Vec<Q>> = vec![];
        let mut last = els[0].1[0];
        for (_, v) in &els[1..] {
            let mut e = vec![last];
            e.extend(v);
            last = e[e.len() - 1];
            c.push(e);
        }
        let first = els[0].1[0];
        check("starts-at-its-point", eq(p.x - t.0, lit(first.0)) & eq(p.y - t.1, lit(first.1)));
        check("ends-at-its-point", eq(q.x - t.0, lit(last.0)) & eq(q.y - t.1, lit(last.1)));
        if param("show", 0) == 1 {
            eprintln!("{els:?}");
        }
        let ok = c.iter().all(|e| e[0].1 <= e[e.len() - 1].1 && rises(e) >= -1e-9);
        check("goes-down", from_bool(ok));
        if let Some(k) = out[s].copied_idx {
            check("copied-part-exists", from_bool(k < c.len()));
        }
        if last.1 > first.1 {
            curves.push(c);
        }
    }
    let slop = 1e-10;
    let x_near = |c: &Vec<Vec<Q>>, y: f64| {
        let mut r: Option<(f64, f64)> = None;
        for e in c {
            if let Some(v) = near(e, y, slop) {
                r = Some(r.map_or(v, |w| (w.0.min(v.0), w.1.max(v.1))));
            }
        }
        r
    };
    let mut worst = 0f64;
    for i in 0..curves.len() {
        for j in 0..i {
            let (a, b) = (&curves[i], &curves[j]);
            let mut ys: Vec<f64> = a.iter().chain(b).flat_map(|e| [e[0].1, e[e.len() - 1].1]).collect();
            let lo = a[0][0].1.max(b[0][0].1);
            let end = |c: &Vec<Vec<Q>>| c.last().unwrap().last().unwrap().1;
            let hi = end(a).min(end(b));
            ys.retain(|y| lo <= *y && *y <= hi);
            if lo >= hi || ys.is_empty() {
                continue;
            }
            ys.sort_by(|a, b| a.partial_cmp(b).unwrap());
            ys.dedup();
            let mut hs = vec![];
            for w in ys.windows(2) {
                for k in 0..8 {
                    hs.push(w[0] + (w[1] - w[0]) * k as f64 / 8.0);
                }
            }
            hs.push(ys[ys.len() - 1]);
            // how far each gets to the left of the other
            let (mut l, mut r) = (0f64, 0f64);
            for y in hs {
                if let (Some(u), Some(v)) = (x_near(a, y), x_near(b, y)) {
                    l = l.max(v.0 - u.1);
                    r = r.max(u.0 - v.1);
                }
            }
            worst = worst.max(l.min(r));
        }
    }
    if param("show", 0) == 1 {
        eprintln!("worst crossing {worst:e}");
    }
    check("output-curves-do-not-cross", from_bool(worst < 1e-9));
    cover("done");
}

/// One height of a sweep over a drawing: the place of the height, the height in the drawing's frame, the
/// events in the order they were reported, the segments below and those that end here.
struct SweepAt {
    at: f64,
    y: f64,
    ev: Vec<ls::sweep::OutputEvent>,
    order: Vec<ls::SegIdx>,
}

/// The sweep over a drawing.  Params: draw (or kind, n0, n, both), swap, eps; run with move=1.
fn sweeps() {
    let t = position();
    let (da, db) = drawing();
    let eps = tolerance();
    let mut segs = ls::Segments::default();
    segs.add_bez_path(&path(&da, t)).unwrap();
    segs.add_bez_path(&path(&db, t)).unwrap();
    // the place, for telling heights or positions apart
    let px = |x: F| place(KPoint::new(x, t.1), t).0;
    let py = |y: F| place(KPoint::new(t.0, y), t).1;
    let rel: Vec<Cub> = segs
        .indices()
        .map(|i| {
            let c = segs[i].to_kurbo_cubic();
            let r = |q: KPoint| (val(q.x - t.0), val(q.y - t.1));
            [r(c.p0), r(c.p1), r(c.p2), r(c.p3)]
        })
        .collect();
    let mut sw = ls::sweep::Sweeper::new(&segs, lit(eps));
    let (mut lb, mut rb) = (ls::sweep::SweepLineBuffers::default(), ls::sweep::SweepLineRangeBuffers::default());
    let mut lines: Vec<SweepAt> = vec![];
    while let Some(mut line) = sw.next_line(&mut lb) {
        let (at, y) = (py(line.y()), val(line.y() - t.1));
        check("lines-increase", from_bool(lines.last().map_or(true, |l| l.at < at)));
        let mut ev = vec![];
        let mut last_end: Option<usize> = None;
        while let Some(mut range) = line.next_range(&mut rb, &segs) {
            let r = range.seg_range();
            check("ranges-do-not-overlap", from_bool(last_end.map_or(true, |e| r.segs.start >= e) && r.segs.start <= r.segs.end));
            last_end = Some(r.segs.end);
            let (old, new): (Vec<_>, Vec<_>) = (range.old_segment_range().collect(), range.segment_range().collect());
            let mut last: Option<f64> = None;
            let mut here: Vec<ls::sweep::OutputEvent> = vec![];
            while let Some(x) = range.x() {
                let x = px(x);
                let Some(batch) = range.events() else { break };
                check("positions-increase-along-a-line", from_bool(last.map_or(true, |l| l < x)));
                for e in &batch {
                    check("event-in-its-batch", from_bool(px(e.larger_x()) <= x && last.map_or(true, |l| l <= px(e.smaller_x()))));
                    here.push(e.clone());
                }
                last = Some(x);
            }
            for (above, want, name) in [(true, &old, "old-order-of-a-range"), (false, &new, "new-order-of-a-range")] {
                let got: Vec<(f64, ls::SegIdx)> =
                    here.iter().filter(|e| if above { e.connected_above } else { e.connected_below }).map(|e| (px(if above { e.x0 } else { e.x1 }), e.seg_idx)).collect();
                let xs: Vec<f64> = want.iter().filter_map(|s| got.iter().find(|g| g.1 == *s).map(|g| g.0)).collect();
                check(name, from_bool(got.len() == want.len() && xs.len() == want.len() && xs.windows(2).all(|w| w[0] <= w[1])));
            }
            ev.extend(here);
        }
        let mut order = vec![];
        let mut i = 0;
        while let Some(s) = line.line_segment(i) {
            if py(segs[s].end().y) != at {
                order.push(s);
            }
            i += 1;
        }
        lines.push(SweepAt { at, y, ev, order });
    }
    // every segment is an unbroken chain, close to the segment
    for i in segs.indices() {
        let (a, b) = (segs[i].start(), segs[i].end());
        let flat = segs[i].is_horizontal();
        let mut chain: Vec<(f64, ls::sweep::OutputEvent)> = vec![];
        for l in &lines {
            let mut evs: Vec<_> = l.ev.iter().filter(|e| e.seg_idx == i).cloned().collect();
            if evs.iter().any(|e| px(e.x1) < px(e.x0)) {
                evs.reverse();
            }
            let (lo, hi) = if flat {
                (rel[i.0][0].0, rel[i.0][3].0)
            } else {
                let v: Vec<f64> = (-16..=16).map(|k| x_at(&rel[i.0], l.y + 2.0 * eps * k as f64 / 16.0)).collect();
                (v.iter().copied().fold(f64::MAX, f64::min), v.iter().copied().fold(f64::MIN, f64::max))
            };
            for e in evs {
                let m = 2.0 * eps + 1e-9;
                let (x0, x1) = (val(e.smaller_x() - t.0), val(e.larger_x() - t.0));
                check("event-on-its-segment", from_bool(lo - m <= if flat { x0 } else { x1 } && if flat { x1 } else { x0 } <= hi + m));
                chain.push((l.at, e));
            }
        }
        let (Some((y0, e0)), Some((y1, e1))) = (chain.first(), chain.last()) else {
            check("every-segment-is-visited", ff());
            continue;
        };
        check("chain-starts-at-the-start", from_bool(*y0 == py(a.y) && px(e0.x0) == px(a.x) && !e0.connected_above));
        check("chain-ends-at-the-end", from_bool(*y1 == py(b.y) && px(e1.x1) == px(b.x) && !e1.connected_below));
        for w in chain.windows(2) {
            let ((ya, p), (yb, q)) = (&w[0], &w[1]);
            if p.connected_below || q.connected_above {
                check("chain-connected-across-lines", from_bool(p.connected_below && q.connected_above && ya < yb));
            } else {
                check("chain-connected-along-a-line", from_bool(ya == yb && px(p.x1) == px(q.x0)));
            }
            if p.connected_below {
                // the piece below starts here, at the position reported for it
                cover("piece");
            }
        }
    }
    // left to right between the lines
    for (k, l) in lines.iter().enumerate() {
        if k + 1 == lines.len() {
            check("nothing-left-at-the-end", from_bool(l.order.is_empty()));
            continue;
        }
        let next = lines[k + 1].at;
        for i in segs.indices() {
            let (a, b) = (py(segs[i].start().y), py(segs[i].end().y));
            let n = l.order.iter().filter(|j| **j == i).count();
            check("segments-on-the-line", from_bool((n == 1) == (a < b && a <= l.at && b > l.at) && n <= 1));
            check("no-line-is-missing", from_bool(!(l.at < a && a < next) && !(l.at < b && b < next)));
        }
        let h = lines[k + 1].y - l.y;
        for f in [0.125, 0.5, 0.875] {
            let y = l.y + h * f;
            let range = |i: ls::SegIdx| {
                let v: Vec<f64> = (-4..=4).map(|k| x_at(&rel[i.0], y + 1.5 * eps * k as f64 / 4.0)).collect();
                (v.iter().copied().fold(f64::MAX, f64::min), v.iter().copied().fold(f64::MIN, f64::max))
            };
            let r: Vec<(f64, f64)> = l.order.iter().map(|i| range(*i)).collect();
            let mut max = f64::MIN;
            for (lo, hi) in r {
                if param("show", 0) == 1 && max > hi + 1.5 * eps {
                    eprintln!("at {y}: {max} {hi} order {:?}", l.order);
                }
                check("left-to-right-below-the-line", from_bool(max <= hi + 1.5 * eps + 1e-9));
                max = max.max(lo);
            }
        }
    }
    cover("done");
}

fn main() {
    run_cli(&[("boolop", boolop), ("positions", positions), ("sweeps", sweeps), ("bounds", bounds)]);
}
