//! Shared input builders and oracles for the symbolic harnesses.
pub use kurbo::{BezPath, PathEl, Point as KPoint};
pub use linesweeper as ls;
pub use linesweeper::topology::{BinaryWindingNumber, Contours, Topology};
pub use linesweeper::{BinaryOp, FillRule};
pub use symf::*;

pub type P = (F, F);

// ---------------------------------------------------------------- formulas over small integers

/// An integer-valued term: `f[i]` says that its value is `lo + i`.
#[derive(Clone)]
pub struct Int {
    lo: i32,
    f: Vec<Fm>,
}
impl Int {
    pub fn zero() -> Int {
        Int { lo: 0, f: vec![tt()] }
    }
    pub fn add(&self, up: &Fm, down: &Fm) -> Int {
        // +1 if up, -1 if down (never both)
        match (up.as_const(), down.as_const()) {
            (Some(false), Some(false)) => return self.clone(),
            _ => {}
        }
        let n = self.f.len();
        let none = !(up.clone() | down.clone());
        let mut f = Vec::with_capacity(n + 2);
        for i in 0..n + 2 {
            // value lo-1+i
            let mut t = vec![];
            if i >= 2 {
                t.push(self.f[i - 2].clone() & up.clone());
            }
            if i >= 1 && i <= n {
                t.push(self.f[i - 1].clone() & none.clone());
            }
            if i < n {
                t.push(self.f[i].clone() & down.clone());
            }
            f.push(any(t));
        }
        let mut r = Int { lo: self.lo - 1, f };
        while r.f.len() > 1 && r.f.last().unwrap().as_const() == Some(false) {
            r.f.pop();
        }
        while r.f.len() > 1 && r.f[0].as_const() == Some(false) {
            r.f.remove(0);
            r.lo += 1;
        }
        r
    }
    pub fn is(&self, k: i32) -> Fm {
        let i = k - self.lo;
        if i < 0 || i as usize >= self.f.len() {
            ff()
        } else {
            self.f[i as usize].clone()
        }
    }
    pub fn when(&self, p: impl Fn(i32) -> bool) -> Fm {
        any(self.f.iter().enumerate().filter(|(i, _)| p(self.lo + *i as i32)).map(|(_, f)| f.clone()))
    }
}

// ---------------------------------------------------------------- polygons

/// A direction, as the smallest integer vector along it; dy > 0, or (1, 0).
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Dir(pub i32, pub i32);
pub const V: Dir = Dir(0, 1);
pub const H: Dir = Dir(1, 0);

thread_local!(static DIRS: std::cell::RefCell<Vec<Dir>> = std::cell::RefCell::new(vec![]));

impl Dir {
    /// of a vector with small integer (or half-integer) coordinates
    pub fn of(dx: f64, dy: f64) -> Dir {
        let (mut x, mut y) = ((dx * 8.0) as i32, (dy * 8.0) as i32);
        let (mut a, mut b) = (x.abs(), y.abs());
        while b != 0 {
            (a, b) = (b, a % b);
        }
        x /= a;
        y /= a;
        if y < 0 || (y == 0 && x < 0) {
            (x, y) = (-x, -y);
        }
        let d = Dir(x, y);
        DIRS.with(|v| {
            let mut v = v.borrow_mut();
            if !v.contains(&d) {
                v.push(d);
            }
        });
        d
    }
    /// The input direction that fits best.
    pub fn closest(a: P, b: P) -> Dir {
        let (dx, dy) = (val(b.0) - val(a.0), val(b.1) - val(a.1));
        let off = |d: &Dir| (dx * d.1 as f64 - dy * d.0 as f64).abs() / ((d.0 * d.0 + d.1 * d.1) as f64).sqrt();
        Dir::all().into_iter().min_by(|p, q| off(p).partial_cmp(&off(q)).unwrap()).unwrap()
    }
    /// The directions of the input.
    pub fn all() -> Vec<Dir> {
        let mut all = vec![V, H, Dir(1, 1), Dir(-1, 1)];
        DIRS.with(|v| all.extend(v.borrow().iter().copied().filter(|d| ![V, H, Dir(1, 1), Dir(-1, 1)].contains(d))));
        all
    }
    /// zero iff b - a has this direction: q dx - p dy, scaled down to max(|p|, |q|) = 1
    pub fn off(self, a: P, b: P) -> Vec<(f64, F)> {
        let (p, q) = (self.0 as f64, self.1 as f64);
        let mut v = vec![];
        if q != 0.0 {
            v.extend([(q, b.0), (-q, a.0)]);
        }
        if p != 0.0 {
            v.extend([(-p, b.1), (p, a.1)]);
        }
        v
    }
    pub fn any_unusual() -> bool {
        DIRS.with(|v| v.borrow().iter().any(|d| d.0.abs() > 1 || d.1 > 1))
    }
    /// dx/dy
    pub fn slope(self) -> f64 {
        self.0 as f64 / self.1 as f64
    }
}

/// A directed straight edge.
#[derive(Clone, Copy)]
pub struct Edge {
    pub a: P,
    pub b: P,
    pub s: Dir,
    /// The direction is that of one member of the path class, others may have another one.
    pub vague: bool,
}

#[derive(Clone)]
pub struct Shape {
    pub v: Vec<P>,
    /// direction of each edge
    pub s: Vec<Dir>,
}

impl Shape {
    pub fn edges(&self) -> Vec<Edge> {
        let n = self.v.len();
        (0..n).map(|i| Edge { a: self.v[i], b: self.v[(i + 1) % n], s: self.s[i], vague: false }).collect()
    }
    pub fn reversed(mut self) -> Shape {
        self.v.reverse();
        self.s.reverse();
        // edge i now goes v[i] -> v[i+1]; the old closing edge comes last
        self.s.rotate_left(1);
        self
    }
    pub fn rotated(mut self, k: usize) -> Shape {
        let n = self.v.len();
        self.v.rotate_left(k % n);
        self.s.rotate_left(k % n);
        self
    }
}

/// Concrete polygon with edges in the four directions, scaled by k and moved to c.
pub fn polygon(c: P, rel: &[(f64, f64)], k: f64) -> Shape {
    let n = rel.len();
    let v = rel.iter().map(|r| (c.0 + lit(r.0 * k), c.1 + lit(r.1 * k))).collect();
    let s = (0..n)
        .map(|i| {
            let (a, b) = (rel[i], rel[(i + 1) % n]);
            let (dx, dy) = (b.0 - a.0, b.1 - a.1);
            Dir::of(dx, dy)
        })
        .collect();
    Shape { v, s }
}

impl Edge {
    /// Signed crossing of the ray going west from `p`; half-open in y.
    /// +1 for edges going down (y increasing).  For H edges there is no crossing.
    pub fn cross(&self, p: P) -> (Fm, Fm) {
        let (a, b) = (self.a, self.b);
        let west = match self.s {
            _ if self.vague => any(Dir::all().into_iter().filter(|d| *d != H).map(|d| {
                let side = if d == V { lt(a.0, p.0) } else { lin_lt(&d.off(p, a)) };
                within(&d.off(a, b), 1.0 / 32.0) & side
            })),
            H => return (ff(), ff()),
            V => lt(a.0, p.0),
            s => lin_lt(&s.off(p, a)),
        };
        (
            all([le(a.1, p.1), lt(p.1, b.1), west.clone()]),
            all([le(b.1, p.1), lt(p.1, a.1), west]),
        )
    }
}

pub fn winding(es: &[Edge], p: P) -> Int {
    let mut w = Int::zero();
    for e in es {
        let (u, d) = e.cross(p);
        w = w.add(&u, &d);
    }
    w
}

pub fn rule(r: FillRule, w: &Int) -> Fm {
    match r {
        FillRule::EvenOdd => w.when(|k| k % 2 != 0),
        FillRule::NonZero => w.when(|k| k != 0),
    }
}

pub fn apply(op: BinaryOp, a: Fm, b: Fm) -> Fm {
    match op {
        BinaryOp::Union => a | b,
        BinaryOp::Intersection => a & b,
        BinaryOp::Difference => a & !b,
        BinaryOp::Xor => a ^ b,
    }
}
pub const OPS: [BinaryOp; 4] = [BinaryOp::Union, BinaryOp::Intersection, BinaryOp::Difference, BinaryOp::Xor];
pub const RULES: [FillRule; 2] = [FillRule::EvenOdd, FillRule::NonZero];

/// `style`: 0 = ClosePath only, 1 = explicit closing line then ClosePath, 2 = explicit closing line only
pub fn path_of(shapes: &[Shape], style: i64) -> BezPath {
    let mut p = BezPath::new();
    for c in shapes {
        for (i, q) in c.v.iter().enumerate() {
            if i == 0 {
                p.move_to(KPoint::new(q.0, q.1));
            } else {
                p.line_to(KPoint::new(q.0, q.1));
            }
        }
        if style >= 1 {
            p.line_to(KPoint::new(c.v[0].0, c.v[0].1));
        }
        if style <= 1 {
            p.close_path();
        }
    }
    p
}

/// |x| <= m as a formula
pub fn within(d: &[(f64, F)], m: f64) -> Fm {
    let neg: Vec<(f64, F)> = d.iter().map(|(k, s)| (-k, *s)).collect();
    let mut a = d.to_vec();
    a.push((-m, lit(1.0)));
    let mut b = neg;
    b.push((-m, lit(1.0)));
    lin_le(&a) & lin_le(&b)
}

/// The straight edges of one output contour, classified by direction.  `margin` is the allowed
/// deviation from the class (0 demands exactness).  Reports a violation for curved elements, for
/// subpath structure other than `M L* Z`, and for edges in no class.
pub fn out_edges(path: &BezPath, margin: f64) -> Vec<Edge> {
    let mut out = vec![];
    let els = path.elements();
    let n = els.len();
    let mut cur: Option<P> = None;
    let mut start: Option<P> = None;
    let mut ok = n >= 2;
    for (i, e) in els.iter().enumerate() {
        match e {
            PathEl::MoveTo(p) => {
                ok &= i == 0;
                cur = Some((p.x, p.y));
                start = cur;
            }
            PathEl::LineTo(p) => {
                if let Some(c) = cur {
                    out.push((c, (p.x, p.y)));
                } else {
                    ok = false;
                }
                cur = Some((p.x, p.y));
            }
            PathEl::ClosePath => {
                ok &= i + 1 == n;
                if let (Some(c), Some(s)) = (cur, start) {
                    if !(same(c.0, s.0) && same(c.1, s.1)) {
                        out.push((c, s));
                    }
                }
            }
            _ => {
                check("output-is-straight", ff());
                return vec![];
            }
        }
    }
    ok &= matches!(els.last(), Some(PathEl::ClosePath));
    check("contour-is-one-closed-subpath", from_bool(ok));
    out.into_iter()
        .map(|(a, b)| {
            let s = Dir::closest(a, b);
            let d = s.off(a, b);
            // (an edge no longer than the margin has every direction)
            check("edge-direction", if margin == 0.0 { lin_eq(&d) } else { within(&d, margin) | any(Dir::all().into_iter().map(|t| within(&t.off(a, b), margin))) });
            let short = (val(b.0) - val(a.0)).abs().max((val(b.1) - val(a.1)).abs()) < 0.25;
            Edge { a, b, s, vague: margin > 0.0 && short }
        })
        .collect()
}

/// syntactic equality of two scalars (same constant or same symbolic expression)
pub fn same(a: F, b: F) -> bool {
    let d = a - b;
    !is_symbolic(d) && val(d) == 0.0
}

// ---------------------------------------------------------------- input families

pub struct Family {
    /// granularity exponent of coordinates
    pub lim: i64,
    pub near: i64,
    pub eps: f64,
}

impl Family {
    pub fn from_params() -> Family {
        Family { lim: param("lim", 1 << 12), near: param("near", 0), eps: 2f64.powi(param("eps", -20) as i32) }
    }
    /// An integer coordinate, plus (in the `near` families) a multiple of eps/4.
    /// `--param pin_NAME=K` fixes its integer part.
    pub fn coord(&self, name: &str) -> F {
        let pin = param(&format!("pin_{name}"), i64::MIN);
        let x = if pin != i64::MIN { lit(pin as f64) } else { input(name, -self.lim, self.lim, 0) };
        if self.near > 0 {
            x + input(&format!("{name}e"), -self.near, self.near, param("eps", -20) as i32 - 2)
        } else {
            x
        }
    }
    /// Rectilinear closed polygon with m free x and m free y coordinates.
    pub fn rectilinear(&self, p: &str, m: usize) -> Shape {
        let xs: Vec<F> = (0..m).map(|i| self.coord(&format!("{p}x{i}"))).collect();
        let ys: Vec<F> = (0..m).map(|i| self.coord(&format!("{p}y{i}"))).collect();
        let mut v = vec![];
        let mut s = vec![];
        for i in 0..m {
            v.push((xs[i], ys[i]));
            s.push(H);
            v.push((xs[(i + 1) % m], ys[i]));
            s.push(V);
        }
        Shape { v, s }
    }
    /// Constant shape translated by symbolic (cx, cy).
    pub fn stamp(&self, p: &str, rel: &[(f64, f64)], k: f64) -> Shape {
        polygon((self.coord(&format!("{p}x")), self.coord(&format!("{p}y"))), rel, k)
    }
    /// Digits: 1-4 rectilinear with that many x/y pairs (1 = ordered rectangle), 5.. stamps.
    pub fn shape(&self, p: &str, kind: i64, k: f64) -> Shape {
        match kind {
            1 => {
                let r = self.rectilinear(p, 2);
                assume(lt(r.v[0].0, r.v[1].0));
                assume(lt(r.v[1].1, r.v[2].1));
                r
            }
            2 | 3 | 4 => self.rectilinear(p, kind as usize),
            // diamond
            5 => self.stamp(p, &[(0., -1.), (1., 0.), (0., 1.), (-1., 0.)], k),
            // triangle, flat bottom
            6 => self.stamp(p, &[(0., 0.), (1., 1.), (-1., 1.)], k),
            // triangle, flat top
            7 => self.stamp(p, &[(-1., 0.), (1., 0.), (0., 1.)], k),
            // bow tie with a crossing in the middle
            8 => self.stamp(p, &[(0., 0.), (2., 2.), (2., 0.), (0., 2.)], k),
            // parallelogram
            9 => self.stamp(p, &[(0., 0.), (1., 0.), (2., 1.), (1., 1.)], k),
            // second table
            // bell: vertical sides that flare out
            11 => self.stamp(p, &[(0., 0.), (1., 0.), (1., 1.), (2., 2.), (-1., 2.), (0., 1.)], k),
            // funnel
            12 => self.stamp(p, &[(-1., 0.), (2., 0.), (1., 1.), (1., 2.), (0., 2.), (0., 1.)], k),
            // chevron
            13 => self.stamp(p, &[(0., 0.), (1., 0.), (2., 1.), (1., 2.), (0., 2.), (1., 1.)], k),
            // plus
            14 => self.stamp(p, &[(1., 0.), (2., 0.), (2., 1.), (3., 1.), (3., 2.), (2., 2.), (2., 3.), (1., 3.), (1., 2.), (0., 2.), (0., 1.), (1., 1.)], k),
            // square
            15 => self.stamp(p, &[(0., 0.), (1., 0.), (1., 1.), (0., 1.)], k),
            // horizontal bow tie whose lobes meet in a crossing, traversed through it
            16 => self.stamp(p, &[(0., 0.), (2., 2.), (0., 2.), (2., 0.)], k),
            // square walked twice
            17 => self.stamp(p, &[(0., 0.), (1., 0.), (1., 1.), (0., 1.), (0., 0.), (1., 0.), (1., 1.), (0., 1.)], k),
            // a spike: up and back along the same diagonal
            18 => self.stamp(p, &[(0., 0.), (1., 0.), (2., -1.), (1., 0.), (1., 1.), (0., 1.)], k),
            // two squares joined at a corner
            19 => self.stamp(p, &[(0., 0.), (1., 0.), (1., 1.), (2., 1.), (2., 2.), (1., 2.), (1., 1.), (0., 1.)], k),
            // third table: other slopes
            // tall triangle
            21 => self.stamp(p, &[(0., 0.), (1., 2.), (-1., 2.)], k),
            // wide triangle
            22 => self.stamp(p, &[(0., 0.), (2., 0.5), (-2., 0.5)], k),
            // thin slivers from one apex
            23 => self.stamp(p, &[(0., 0.), (0.5, 4.), (0., 2.)], k),
            // kite
            24 => self.stamp(p, &[(0., 0.), (1., 0.5), (0., 2.), (-1., 0.5)], k),
            // five-pointed star (winds twice in the middle)
            25 => self.stamp(p, &[(1.5, 0.), (2.5, 3.), (0., 1.), (3., 1.), (0.5, 3.)], k),
            // tilted hexagon
            26 => self.stamp(p, &[(0.5, 0.), (1.5, 0.), (2., 1.), (1.5, 2.), (0.5, 2.), (0., 1.)], k),
            // almost horizontal sliver
            27 => self.stamp(p, &[(0., 0.), (2., 0.25), (1., 0.25)], k),
            // saw
            28 => self.stamp(p, &[(0., 0.), (1., 0.5), (0., 1.), (1., 1.5), (0., 2.), (-0.5, 2.), (-0.5, 0.)], k),
            // X: two bars, one contour
            29 => self.stamp(p, &[(0., 0.), (0.5, 0.), (2., 3.), (1.5, 3.), (0., 0.), (2., 0.), (0.5, 3.), (0., 3.), (1.5, 0.)], k),
            _ => panic!("shape kind"),
        }
    }
    /// Concrete polygons that the symbolic ones are placed upon.
    pub fn background(&self, kind: i64) -> Vec<Shape> {
        let sq = |r: f64| polygon((lit(0.0), lit(0.0)), &[(-1., -1.), (1., -1.), (1., 1.), (-1., 1.)], r);
        let at = |x: f64, y: f64, rel: &[(f64, f64)], k: f64| polygon((lit(x), lit(y)), rel, k);
        match kind {
            // three nested squares, all alike, or alternating
            1 => vec![sq(24.0), sq(16.0), sq(8.0)],
            2 => vec![sq(24.0), sq(16.0).reversed(), sq(8.0)],
            // a tower of kinks on both sides
            3 => vec![at(0.0, 0.0, &[(0., 0.), (1., 0.), (1., 1.), (3., 3.), (3., 4.), (2., 5.), (4., 7.), (-3., 7.), (-3., 6.), (-1., 4.), (-2., 3.), (-2., 2.), (0., 0.)][..12], 8.0)],
            // comb
            4 => vec![at(0.0, 0.0, &[(0., 0.), (7., 0.), (7., 3.), (6., 3.), (6., 1.), (5., 1.), (5., 4.), (4., 4.), (4., 1.), (3., 1.), (3., 3.), (2., 3.), (2., 1.), (1., 1.), (1., 2.), (0., 2.)], 8.0)],
            // checkerboard
            5 => (0..9).filter(|i| i % 2 == 0).map(|i| at((i % 3) as f64 * 8.0, (i / 3) as f64 * 8.0, &[(0., 0.), (1., 0.), (1., 1.), (0., 1.)], 8.0)).collect(),
            // a row of overlapping diamonds
            6 => (0..4).map(|i| at(i as f64 * 8.0, 0.0, &[(0., -1.), (1., 0.), (0., 1.), (-1., 0.)], 8.0)).collect(),
            // spiral
            7 => vec![at(0.0, 0.0, &[(0., 0.), (6., 0.), (6., 6.), (1., 6.), (1., 2.), (4., 2.), (4., 4.), (3., 4.), (3., 3.), (2., 3.), (2., 5.), (5., 5.), (5., 1.), (0., 1.)], 8.0)],
            // frame of four abutting rectangles
            8 => vec![
                at(0.0, 0.0, &[(0., 0.), (4., 0.), (4., 1.), (0., 1.)], 8.0),
                at(0.0, 24.0, &[(0., 0.), (4., 0.), (4., 1.), (0., 1.)], 8.0),
                at(0.0, 8.0, &[(0., 0.), (1., 0.), (1., 2.), (0., 2.)], 8.0),
                at(24.0, 8.0, &[(0., 0.), (1., 0.), (1., 2.), (0., 2.)], 8.0),
            ],
            // a fan of triangles from one apex
            9 => vec![
                at(0.0, 0.0, &[(0., 0.), (3., 3.), (0., 3.)], 8.0),
                at(0.0, 0.0, &[(0., 0.), (0., 3.), (-3., 3.)], 8.0),
                at(0.0, 0.0, &[(0., 0.), (3., -3.), (-3., -3.)], 8.0),
            ],
            // thin triangles of many slopes with a common apex, above and below it
            10 => [(-2., -1.), (-0.5, 0.5), (1., 2.)]
                .iter()
                .flat_map(|(l, r)| [at(0.0, 0.0, &[(0., 0.), (*r, 2.), (*l, 2.)], 8.0), at(0.0, 0.0, &[(0., 0.), (*l, -2.), (*r, -2.)], 8.0)])
                .collect(),
            // slanted bars that all cross each other
            11 => [(-2., 2.), (2., -2.), (0., 1.), (1., -1.)].iter().map(|(t, b)| at(0.0, 0.0, &[(*t, -2.), (*t + 1., -2.), (*b + 1., 2.), (*b, 2.)], 8.0)).collect(),
            // overlapping stars
            12 => [(0., 0.), (8., 0.), (4., 8.)].iter().map(|(x, y)| at(*x, *y, &[(1.5, 0.), (2.5, 3.), (0., 1.), (3., 1.), (0.5, 3.)], 8.0)).collect(),
            // stairs against a slope
            13 => vec![
                at(0.0, 0.0, &[(0., 0.), (1., 0.), (1., 1.), (2., 1.), (2., 2.), (3., 2.), (3., 3.), (0., 3.)], 8.0),
                at(0.0, 0.0, &[(0., 0.), (3., 3.), (4., 3.), (4., 0.)], 8.0),
                at(0.0, 0.0, &[(1., 0.), (2., 0.), (3., 2.), (2., 2.)], 8.0),
            ],
            // the same square three times, then turned, then with a hole
            14 => vec![sq(16.0), sq(16.0), sq(16.0).rotated(1), sq(8.0).reversed(), at(0.0, 0.0, &[(0., -2.), (2., 0.), (0., 2.), (-2., 0.)], 8.0)],
            // brick wall
            15 => (0..3).flat_map(|j| (0..3).map(move |i| (j, i))).map(|(j, i)| at((i * 16 + (j % 2) * 8) as f64, (j * 8) as f64, &[(0., 0.), (2., 0.), (2., 1.), (0., 1.)], 8.0)).collect(),
            // slits: triangles back to back along shared sides
            16 => vec![
                at(0.0, 0.0, &[(0., 0.), (1., 2.), (0., 4.)], 8.0),
                at(0.0, 0.0, &[(0., 0.), (0., 4.), (-1., 2.)], 8.0),
                at(0.0, 0.0, &[(0., 0.), (2., 2.), (1., 2.)], 8.0),
                at(0.0, 0.0, &[(1., 2.), (2., 2.), (0., 4.)], 8.0),
                at(0.0, 0.0, &[(0., 4.), (-1., 2.), (-2., 2.)], 8.0),
            ],
            _ => vec![],
        }
    }
}

/// Probe point off every (unperturbed) edge: its distance to lines through integer points is at
/// least 1/64 for all the directions in use.
pub fn probe(lim: i64) -> P {
    let x = input("px", -lim - 1, lim, 0) + lit(12. / 64.);
    let y = input("py", -lim - 1, lim, 0) + lit(21. / 64.);
    (x, y)
}

pub struct Input {
    pub fam: Family,
    pub a: Vec<Shape>,
    pub b: Vec<Shape>,
    pub margin: f64,
    pub probe_lim: i64,
}

/// `--param shapes=DIGITS` (one digit per contour), `sets=BITS` (bit i: contour i belongs to the
/// second set), `rev=BITS`, `rot=DIGITS`, `k=SIZE` of the stamps, `tab=BITS` (contour i from the
/// second table), `bg=N` with `bgset=0|1` (concrete polygons in the first or second set).
pub fn build_input() -> Input {
    let fam = Family::from_params();
    let kinds: Vec<i64> = param("shapes", 22).to_string().bytes().map(|b| (b - b'0') as i64).collect();
    let (sets, rev, rot) = (param("sets", 2), param("rev", 0), param("rot", 0));
    let k = param("k", 8) as f64;
    let (mut a, mut b) = (vec![], vec![]);
    for (i, kind) in kinds.iter().enumerate() {
        let kind = *kind + 10 * (param("tab", 0) >> i & 1) + 20 * (param("tab2", 0) >> i & 1);
        let mut s = fam.shape(&((b'a' + i as u8) as char).to_string(), kind, k);
        if rev >> i & 1 == 1 {
            s = s.reversed();
        }
        let r = (rot / 10i64.pow(i as u32)) % 10;
        s = s.rotated(r as usize);
        if sets >> i & 1 == 1 {
            b.push(s)
        } else {
            a.push(s)
        }
    }
    let bg = fam.background(param("bg", 0));
    for s in &bg {
        if param("bgset", 0) == 1 {
            b.push(s.clone())
        } else {
            a.push(s.clone())
        }
    }
    let diag = a.iter().chain(&b).any(|s| s.s.iter().any(|d| *d != V && *d != H));
    let margin = if diag || fam.near > 0 { 1.0 / 32.0 } else { 0.0 };
    let mut probe_lim = fam.lim;
    if kinds.iter().any(|k| *k >= 5) || param("tab", 0) != 0 || param("tab2", 0) != 0 {
        probe_lim += 4 * k as i64 + 1;
    }
    if !bg.is_empty() {
        probe_lim = probe_lim.max(60);
    }
    // pinned coordinates may lie outside lim
    probe_lim = probe_lim.max(param("plim", 0));
    Input { fam, a, b, margin, probe_lim }
}

pub fn all_edges(s: &[Shape]) -> Vec<Edge> {
    s.iter().flat_map(|x| x.edges()).collect()
}

// ---------------------------------------------------------------- oracles

/// What the returned contours have to look like, as a representation of *some* set.
/// Returns each contour's winding at the probe.
pub fn check_contours(c: &Contours, pr: P, margin: f64) -> Vec<Int> {
    let cs: Vec<_> = c.contours().collect();
    let es: Vec<Vec<Edge>> = cs.iter().map(|k| out_edges(&k.path, margin)).collect();
    let ws: Vec<Int> = es.iter().map(|e| winding(e, pr)).collect();
    for (i, k) in cs.iter().enumerate() {
        let w = &ws[i];
        check(
            if k.outer { "outer-contour-winds-once" } else { "inner-contour-winds-once-backwards" },
            w.is(0) | w.is(if k.outer { 1 } else { -1 }),
        );
        match k.parent {
            None => check("root-contour-is-outer", from_bool(k.outer)),
            Some(p) => {
                let ok = p.0 < cs.len() && p.0 != i;
                check("parent-exists", from_bool(ok));
                if ok {
                    check("child-alternates", from_bool(k.outer != cs[p.0].outer));
                    check("child-inside-parent", implies(!w.is(0), !ws[p.0].is(0)));
                }
            }
        }
        for j in 0..i {
            if cs[j].parent == k.parent {
                check("siblings-disjoint", w.is(0) | ws[j].is(0));
            }
        }
        // no repeated points on a contour
        if margin == 0.0 {
            let n = es[i].len();
            for p in 0..n {
                for q in 0..p {
                    let (u, v) = (es[i][p].a, es[i][q].a);
                    check("contour-has-no-repeated-point", !(eq(u.0, v.0) & eq(u.1, v.1)));
                }
            }
            if let Some(p) = k.parent {
                // at most one shared vertex with the parent
                if p.0 < cs.len() {
                    let mut shared = vec![];
                    for u in &es[i] {
                        let sh = any(es[p.0].iter().map(|v| eq(u.a.0, v.a.0) & eq(u.a.1, v.a.1)));
                        if sh.as_const() != Some(false) {
                            shared.push(sh);
                        }
                    }
                    for x in 0..shared.len() {
                        for y in 0..x {
                            check(if k.outer { "island-shares-at-most-one-point-with-its-hole" } else { "hole-shares-at-most-one-point-with-its-outer" }, !(shared[x].clone() & shared[y].clone()));
                        }
                    }
                }
            }
        }
    }
    if margin == 0.0 {
        // nothing degenerate: no contour is flat and no two boundary segments coincide
        for e in &es {
            let line = |f: &dyn Fn(&Edge) -> F| all(e[1..].iter().map(|k| lin_eq(&[(1.0, f(k)), (-1.0, f(&e[0]))])));
            if let Some(_) = e.first() {
                let flat = line(&|k| k.a.0) | line(&|k| k.a.1);
                let diag = |d: Dir| all(e[1..].iter().map(|k| lin_eq(&d.off(e[0].a, k.a))));
                check("contour-encloses-area", !(flat | diag(Dir(1, 1)) | diag(Dir(-1, 1))));
            }
        }
        let every: Vec<&Edge> = es.iter().flatten().collect();
        for (i, e) in every.iter().enumerate() {
            for f in &every[..i] {
                let same = |p: P, q: P| eq(p.0, q.0) & eq(p.1, q.1);
                let dup = (same(e.a, f.a) & same(e.b, f.b)) | (same(e.a, f.b) & same(e.b, f.a));
                check("boundary-segments-distinct", !dup);
            }
        }
    }
    // grouped() partitions the contours by root
    let g = c.grouped();
    let mut seen = vec![0; cs.len()];
    let mut ok = true;
    for grp in &g {
        ok &= !grp.is_empty();
        for (n, idx) in grp.iter().enumerate() {
            if idx.0 >= cs.len() {
                ok = false;
                continue;
            }
            seen[idx.0] += 1;
            let k = &c[*idx];
            ok &= (n == 0) == k.parent.is_none();
            // all members descend from the first one
            let mut r = *idx;
            let mut steps = 0;
            while let Some(p) = c[r].parent {
                r = p;
                steps += 1;
                if steps > cs.len() {
                    ok = false;
                    break;
                }
            }
            ok &= r == grp[0];
        }
    }
    ok &= seen.iter().all(|n| *n == 1);
    check("grouped-is-the-containment-partition", from_bool(ok));
    ws
}

pub fn total(c: &Contours, pr: P, margin: f64) -> Int {
    let mut es = vec![];
    for k in c.contours() {
        es.extend(out_edges(&k.path, margin));
    }
    winding(&es, pr)
}

/// Every vertex of the output lies on (or within `m` of) an input edge.
pub fn check_vertices(c: &Contours, input: &[Edge], m: f64) {
    for k in c.contours() {
        for e in out_edges(&k.path, if m == 0.0 { 0.0 } else { 1.0 / 32.0 }) {
            let v = e.a;
            let near = any(input.iter().map(|i| {
                let on_line = i.s.off(i.a, v);
                let lo = |p: F, a: F, b: F| {
                    // min(a,b) - m <= p <= max(a,b) + m
                    let mm = (m, lit(1.0));
                    (lin_le(&[(1.0, a), (-1.0, p), (-mm.0, mm.1)]) | lin_le(&[(1.0, b), (-1.0, p), (-mm.0, mm.1)]))
                        & (lin_le(&[(1.0, p), (-1.0, a), (-mm.0, mm.1)]) | lin_le(&[(1.0, p), (-1.0, b), (-mm.0, mm.1)]))
                };
                let on = if m == 0.0 { lin_eq(&on_line) } else { within(&on_line, m) };
                all([on, lo(v.0, i.a.0, i.b.0), lo(v.1, i.a.1, i.b.1)])
            }));
            check("output-vertex-on-an-input-edge", near);
        }
    }
}

// ---------------------------------------------------------------- concrete curves

pub type Q = (f64, f64);
pub fn mix(a: Q, b: Q, t: f64) -> Q {
    (a.0 + (b.0 - a.0) * t, a.1 + (b.1 - a.1) * t)
}

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self, n: i64) -> i64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        ((self.0 >> 33) % n as u64) as i64
    }
}
pub type Cub = [Q; 4];
pub fn at(c: &Cub, t: f64) -> Q {
    let m = |a: Q, b: Q| mix(a, b, t);
    let (a, b, d) = (m(c[0], c[1]), m(c[1], c[2]), m(c[2], c[3]));
    m(m(a, b), m(b, d))
}
/// The lower part of a curve.
pub fn tail(c: &Cub, t: f64) -> Cub {
    let m = |a: Q, b: Q| mix(a, b, t);
    let (a, b, d) = (m(c[0], c[1]), m(c[1], c[2]), m(c[2], c[3]));
    let (e, f) = (m(a, b), m(b, d));
    [m(e, f), f, d, c[3]]
}
pub fn x_at(c: &Cub, y: f64) -> f64 {
    let (mut lo, mut hi) = (0.0, 1.0);
    if y <= c[0].1 {
        return c[0].0;
    }
    if y >= c[3].1 {
        return c[3].0;
    }
    for _ in 0..60 {
        let t = 0.5 * (lo + hi);
        if at(c, t).1 < y {
            lo = t
        } else {
            hi = t
        }
    }
    at(c, 0.5 * (lo + hi)).0
}
pub fn monotone(r: &mut Rng, flat: i32) -> Cub {
    let s = 2f64.powi(-flat);
    loop {
        let y0 = r.next(5) as f64 - 2.0;
        let (d1, d2, d3) = (r.next(7), r.next(7), r.next(7));
        if d1 + d2 + d3 == 0 {
            continue;
        }
        let mut x = || r.next(17) as f64 - 8.0;
        let (a, b, c, d) = (x(), x(), x(), x());
        let y = |k: i64| (y0 + k as f64) * s;
        return [(a, y(0)), (b, y(d1)), (c, y(d1 + d2)), (d, y(d1 + d2 + d3))];
    }
}
pub fn line(r: &mut Rng) -> Cub {
    let (a, b) = ((r.next(17) as f64 - 8.0, r.next(5) as f64 - 2.0), (r.next(17) as f64 - 8.0, r.next(8) as f64 + 3.0));
    [a, mix(a, b, 1. / 3.), mix(a, b, 2. / 3.), b]
}
/// A pair of curves that are increasing in y; `kind` 0..=12.
pub fn pair(kind: i64, n: i64, tol: f64) -> (Cub, Cub) {
    let mut r = Rng(0x9e3779b97f4a7c15 ^ (kind as u64) << 40 ^ (n as u64 + 1) * 0x2545f4914f6cdd1d);
    for _ in 0..4 {
        r.next(2);
    }
    let mv = |c: &Cub, dx: f64, dy: f64| c.map(|q| (q.0 + dx, q.1 + dy));
    let a = match kind {
        5 | 10 => line(&mut r),
        8 => monotone(&mut r, 4),
        // an arc of a parabola with a horizontal axis
        11 => {
            let (y, h) = (r.next(5) as f64 - 2.0, 3.0 + r.next(12) as f64);
            let (a, m, b) = (r.next(17) as f64 - 8.0, r.next(17) as f64 - 8.0, r.next(17) as f64 - 8.0);
            [(a, y), ((a + 2.0 * m) / 3.0, y + h / 3.0), ((b + 2.0 * m) / 3.0, y + 2.0 * h / 3.0), (b, y + h)]
        }
        // very flat, and going one way
        12 => {
            let mut a = monotone(&mut r, 7);
            a.sort_by(|p, q| p.0.total_cmp(&q.0));
            let mut y = a.map(|q| q.1);
            y.sort_by(f64::total_cmp);
            let x = a.map(|q| q.0);
            [0, 1, 2, 3].map(|i| (x[i], y[i]))
        }
        // over evenly spaced heights
        13 | 14 => {
            let (y, h) = (r.next(5) as f64 - 2.0, 3.0 + r.next(12) as f64);
            [0.0, 1.0, 2.0, 3.0].map(|k| (r.next(17) as f64 - 8.0, y + k * h / 3.0))
        }
        _ => monotone(&mut r, 0),
    };
    let b = match kind {
        // from the same first point apart and back, to meet or nearly meet around the middle
        13 => {
            // the distance is s t ((t - m)^2 - d), at the parameter t
            let m = (4 + r.next(7)) as f64 / 16.0 + 0.2;
            let s = 2.0 + r.next(30) as f64;
            let d = tol * (r.next(13) as f64 - 4.0) / (8.0 * s * m);
            let c = [0.0, s * (m * m - d), -2.0 * s * m, s];
            let g = [0.0, c[1] / 3.0, 2.0 * c[1] / 3.0 + c[2] / 3.0, c[1] + c[2] + c[3]];
            [0, 1, 2, 3].map(|k| (a[k].0 + g[k], a[k].1))
        }
        // nearly the same
        11 => mv(&a, tol * (r.next(17) as f64 - 8.0) / 4.0, tol * (r.next(9) as f64 - 4.0) / 4.0),
        // beside it, or a little higher or lower
        12 => {
            let far = [0.0, 3.0, 9.0, 17.0, 25.0, 60.0][r.next(6) as usize];
            let mut b = mv(&a, far, (r.next(5) as f64 - 2.0) / 256.0);
            b[1 + r.next(2) as usize].0 = b[0].0 + (b[3].0 - b[0].0) * (1 + r.next(3)) as f64 / 4.0;
            if r.next(4) == 0 {
                // going against it
                let w = b[0].0 + b[3].0;
                b = b.map(|q| (w - q.0, q.1));
                b[1].0 = b[1].0.clamp(b[3].0, b[0].0);
                b[2].0 = b[2].0.clamp(b[3].0, b[0].0);
            }
            if r.next(2) == 0 {
                // the other way round in x
                let w = a[0].0 + a[3].0;
                return (a.map(|q| (w - q.0, q.1)), b.map(|q| (w - q.0, q.1)));
            }
            b
        }
        // from the same first point apart, to cross a little before the last point, and back nearly to it
        14 => {
            // the distance is s t (m - t) (e - t), with m < 1 and e near 1
            let s = 2.0 + r.next(30) as f64;
            let m = 1.0 - (tol * (1 + r.next(12)) as f64 / 2.0 / s).sqrt();
            let e = 1.0 + tol * (r.next(5) as f64 - 2.0) / (2.0 * s);
            let c = [0.0, s * m * e, -s * (m + e), s];
            let g = [0.0, c[1] / 3.0, 2.0 * c[1] / 3.0 + c[2] / 3.0, c[1] + c[2] + c[3]];
            let b = [0, 1, 2, 3].map(|k| (a[k].0 + g[k], a[k].1));
            if r.next(2) == 0 {
                // upside down
                let h = a[0].1 + a[3].1;
                let v = |c: Cub| [3, 2, 1, 0].map(|k| (c[k].0, h - c[k].1));
                return (v(a), v(b));
            }
            b
        }
        // anything
        0 => monotone(&mut r, 0),
        // common first point
        1 => {
            let b = monotone(&mut r, 0);
            mv(&b, a[0].0 - b[0].0, a[0].1 - b[0].1)
        }
        // common last point
        2 => {
            let b = monotone(&mut r, 0);
            mv(&b, a[3].0 - b[3].0, a[3].1 - b[3].1)
        }
        // the same curve at a small distance
        3 => mv(&a, tol * (r.next(17) as f64 - 8.0) / 4.0, tol * (r.next(9) as f64 - 4.0) / 4.0),
        // a part of it
        4 => tail(&a, (r.next(6) as f64 + 1.0) / 8.0),
        // two lines
        10 => line(&mut r),
        // a line and a curve, or two lines
        5 => {
            if r.next(2) == 0 {
                line(&mut r)
            } else {
                monotone(&mut r, 0)
            }
        }
        // the same but for one control point: tangent at an end
        6 => {
            let mut b = a;
            b[1 + r.next(2) as usize].0 += r.next(9) as f64 - 4.0;
            b
        }
        // one begins where the other ends, or a little before
        7 => {
            let b = monotone(&mut r, 0);
            mv(&b, a[3].0 - b[0].0 + r.next(3) as f64 - 1.0, a[3].1 - b[0].1 - r.next(3) as f64 / 2.0)
        }
        // nearly horizontal
        8 => monotone(&mut r, 4),
        // common first point and tangent there
        _ => {
            let mut b = monotone(&mut r, 0);
            b = mv(&b, a[0].0 - b[0].0, a[0].1 - b[0].1);
            b[1] = a[1];
            for k in 2..4 {
                b[k].1 = b[k].1.max(b[k - 1].1);
            }
            if b[3].1 <= b[0].1 {
                b[3].1 = b[0].1 + 1.0;
            }
            b
        }
    };
    if r.next(2) == 0 {
        (a, b)
    } else {
        (b, a)
    }
}

pub fn cubic(c: &Cub, t: P) -> kurbo::CubicBez {
    let q = |p: Q| KPoint::new(t.0 + lit(p.0), t.1 + lit(p.1));
    kurbo::CubicBez::new(q(c[0]), q(c[1]), q(c[2]), q(c[3]))
}

/// A symbolic choice among lo..hi.
pub fn pick(name: &str, lo: i64, hi: i64) -> i64 {
    let x = input(name, lo, hi - 1, 0);
    for k in lo..hi {
        if x == lit(k as f64) {
            return k;
        }
    }
    unreachable!()
}

