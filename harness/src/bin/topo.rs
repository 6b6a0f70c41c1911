//! Winding numbers, points and positions recorded by `Topology`.
use harness::*;
use linesweeper::topology::WindingNumber;

/// Winding numbers of up to four independently tagged sets.
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
struct W4([i32; 4]);
impl std::ops::Add for W4 {
    type Output = W4;
    fn add(self, o: W4) -> W4 {
        let mut r = self;
        for i in 0..4 {
            r.0[i] += o.0[i];
        }
        r
    }
}
impl std::ops::AddAssign for W4 {
    fn add_assign(&mut self, o: W4) {
        *self = *self + o
    }
}
impl WindingNumber for W4 {
    type Tag = usize;
    fn single(tag: usize, positive: bool) -> W4 {
        let mut r = W4::default();
        r.0[tag] = if positive { 1 } else { -1 };
        r
    }
}

/// What the topology says about one side of an output segment has to be what the input says.
fn sides<W: WindingNumber>(t: &Topology<W>, margin: f64, get: &dyn Fn(&W) -> Vec<i32>, sets: &[Vec<Edge>]) {
    let mut ends: Vec<(P, P)> = vec![];
    for s in t.segment_indices() {
        let (p, q) = (t.point(s.first_half()), t.point(s.second_half()));
        let (a, b) = ((p.x, p.y), (q.x, q.y));
        let s_class = Dir::closest(a, b);
        let d = s_class.off(a, b);
        if margin == 0.0 {
            check("segment-direction", lin_eq(&d));
        }
        // the first half comes first in sweep order
        check("halves-in-sweep-order", lt(a.1, b.1) | (eq(a.1, b.1) & le(a.0, b.0)));
        if margin == 0.0 {
            check("segment-not-a-point", !(eq(a.0, b.0) & eq(a.1, b.1)));
        }
        let h = s.first_half();
        check("halves-mirror", from_bool(
            t.winding_clockwise(h) == t.winding_counter_clockwise(h.other_half())
                && t.winding_counter_clockwise(h) == t.winding_clockwise(h.other_half())
                && h.is_first_half()
                && !h.other_half().is_first_half()
                && h.other_half().other_half() == h
                && h.other_half() == s.second_half(),
        ));
        if margin == 0.0 {
            check("both-sides-differ", from_bool(t.winding_clockwise(h) != t.winding_counter_clockwise(h)));
        }
        if margin != 0.0 {
            // with features closer than eps, the sides of one segment are not determined
            continue;
        }
        // probes: a point of the segment away from all other features, moved to either side
        let long = match s_class {
            H => lin_le(&[(1.0, a.0), (0.5, lit(1.0)), (-1.0, b.0)]),
            _ => lin_le(&[(1.0, a.1), (0.375, lit(1.0)), (-1.0, b.1)]),
        };
        if long.as_const() == Some(false) {
            continue;
        }
        let o = 3.0 / 16.0;
        let m = match s_class {
            V => (a.0, a.1 + lit(o)),
            H => (a.0 + lit(o), a.1),
            k => (a.0 + lit(o * k.slope()), a.1 + lit(o)),
        };
        let (cw, ccw) = if s_class == H {
            ((m.0, m.1 + lit(0.125)), (m.0, m.1 - lit(0.125)))
        } else {
            ((m.0 - lit(0.125), m.1), (m.0 + lit(0.125), m.1))
        };
        let mut long = long;
        if Dir::any_unusual() && s_class != H {
            // other edges may come arbitrarily close: look only where they do not
            for e in sets.iter().flatten() {
                let clear = |o: f64| {
                    let q = (m.0 + lit(o), m.1);
                    let (u, d) = e.cross(q);
                    u | d
                };
                let far = iff(clear(-0.125), clear(0.125));
                let here = !iff(clear(-1e-4), clear(1e-4));
                long = long & (far | here);
            }
        }
        let (wc, wcc) = (get(t.winding_clockwise(h)), get(t.winding_counter_clockwise(h)));
        for (i, e) in sets.iter().enumerate() {
            check("winding-clockwise-side", implies(long.clone(), winding(e, cw).is(wc[i])));
            check("winding-counter-clockwise-side", implies(long.clone(), winding(e, ccw).is(wcc[i])));
        }
        if margin == 0.0 {
            for (c, d) in &ends {
                check("coincident-segments-merged", !all([eq(a.0, c.0), eq(a.1, c.1), eq(b.0, d.0), eq(b.1, d.1)]));
            }
        }
        ends.push((a, b));
        cover("segment");
    }
    if ends.is_empty() {
        cover("no-segments");
    }
}

/// Every point where the winding changes is covered by an output segment: crossing all the
/// non-horizontal output segments west of a probe accounts for the whole winding number.
fn completeness<W: WindingNumber>(t: &Topology<W>, margin: f64, get: &dyn Fn(&W) -> Vec<i32>, sets: &[Vec<Edge>], pr: P) {
    for (i, e) in sets.iter().enumerate() {
        let mut w = Int::zero();
        for s in t.segment_indices() {
            let (p, q) = (t.point(s.first_half()), t.point(s.second_half()));
            let (a, b) = ((p.x, p.y), (q.x, q.y));
            let s_class = Dir::closest(a, b);
            let _ = margin;
            let (u, _) = Edge { a, b, s: s_class, vague: false }.cross(pr);
            let h = s.first_half();
            // going east across a downward segment: from its clockwise to its counter-clockwise side
            let d = get(t.winding_counter_clockwise(h))[i] - get(t.winding_clockwise(h))[i];
            for _ in 0..d.abs() {
                w = if d > 0 { w.add(&u, &ff()) } else { w.add(&ff(), &u) };
            }
        }
        let truth = winding(e, pr);
        let agree = any((-8..=8).map(|k| truth.is(k) & w.is(k)));
        check("windings-add-up", agree);
    }
}

fn positions<W: WindingNumber>(t: &Topology<W>) {
    let pos = t.compute_positions();
    for s in t.segment_indices() {
        let path = &pos[s].path;
        let (p, q) = (t.point(s.first_half()), t.point(s.second_half()));
        let els = path.elements();
        let start = match els.first() {
            Some(PathEl::MoveTo(p)) => Some((p.x, p.y)),
            _ => None,
        };
        let end = match els.last() {
            Some(PathEl::LineTo(p)) | Some(PathEl::QuadTo(_, p)) | Some(PathEl::CurveTo(_, _, p)) => Some((p.x, p.y)),
            _ => None,
        };
        match (start, end) {
            (Some(a), Some(b)) => {
                check("position-starts-at-the-point", eq(a.0, p.x) & eq(a.1, p.y));
                check("position-ends-at-the-point", eq(b.0, q.x) & eq(b.1, q.y));
            }
            _ => check("position-path-is-an-open-path", ff()),
        }
        check("copied-index-in-range", from_bool(pos[s].copied_idx.map(|i| i + 1 < els.len()).unwrap_or(true)));
        let mut y = p.y;
        for e in &els[1..] {
            let n = match e {
                PathEl::LineTo(p) | PathEl::QuadTo(_, p) | PathEl::CurveTo(_, _, p) => p.y,
                _ => y,
            };
            check("position-is-y-monotone", le(y, n));
            y = n;
        }
    }
}

fn bbox<W: WindingNumber>(t: &Topology<W>, es: &[Edge]) {
    let r = t.bounding_box();
    let mut on = [vec![], vec![], vec![], vec![]];
    let real = |e: &Edge| !(eq(e.a.0, e.b.0) & eq(e.a.1, e.b.1));
    let some = any(es.iter().map(real));
    for e in es {
        let inside = all([le(r.x0, e.a.0), le(e.a.0, r.x1), le(r.y0, e.a.1), le(e.a.1, r.y1)]);
        check("bounding-box-contains", implies(some.clone(), inside));
        on[0].push(eq(r.x0, e.a.0));
        on[1].push(eq(r.x1, e.a.0));
        on[2].push(eq(r.y0, e.a.1));
        on[3].push(eq(r.y1, e.a.1));
    }
    check("bounding-box-tight", implies(some, all(on.into_iter().map(any))));
}

/// Binary winding numbers of polygon families; params as in `boolop`.
fn binary() {
    let inp = build_input();
    let (pa, pb) = (path_of(&inp.a, param("style", 0)), path_of(&inp.b, param("style", 0)));
    let t = Topology::from_paths_binary(&pa, &pb, lit(inp.fam.eps)).unwrap();
    let (ea, eb) = (all_edges(&inp.a), all_edges(&inp.b));
    let get = |w: &BinaryWindingNumber| vec![w.shape_a, w.shape_b];
    sides(&t, inp.margin, &get, &[ea.clone(), eb.clone()]);
    completeness(&t, inp.margin, &get, &[ea, eb], probe(inp.probe_lim));
    positions(&t);
    cover("done");
}

/// Every contour is its own set (generic winding numbers and tags).
fn tagged() {
    let inp = build_input();
    let all: Vec<Shape> = inp.a.iter().chain(&inp.b).cloned().collect();
    let paths: Vec<BezPath> = all.iter().map(|s| path_of(std::slice::from_ref(s), param("style", 0))).collect();
    let t = Topology::<W4>::from_paths(paths.iter().enumerate().map(|(i, p)| (p, i)), lit(inp.fam.eps)).unwrap();
    let es: Vec<Vec<Edge>> = all.iter().map(|s| s.edges()).collect();
    let get = |w: &W4| w.0.to_vec();
    sides(&t, inp.margin, &get, &es);
    completeness(&t, inp.margin, &get, &es, probe(inp.probe_lim));
    cover("done");
}

/// A single path with integer winding numbers, and the bounding box.
fn single() {
    let inp = build_input();
    let pa = path_of(&inp.a, param("style", 0));
    let t = Topology::<i32>::from_path(&pa, lit(inp.fam.eps)).unwrap();
    let es = all_edges(&inp.a);
    let get = |w: &i32| vec![*w];
    sides(&t, inp.margin, &get, &[es.clone()]);
    completeness(&t, inp.margin, &get, &[es.clone()], probe(inp.probe_lim));
    if param("bbox", 0) == 1 {
        bbox(&t, &es);
    }
    cover("done");
}

/// `from_polylines_binary` builds the same topology as `from_paths_binary`.
fn polylines() {
    let inp = build_input();
    let pts = |s: &[Shape]| -> Vec<Vec<linesweeper::Point>> {
        s.iter().map(|c| c.v.iter().map(|q| linesweeper::Point::new(q.0, q.1)).collect()).collect()
    };
    // consecutive vertices are distinct
    for s in inp.a.iter().chain(&inp.b) {
        for e in s.edges() {
            assume(!(eq(e.a.0, e.b.0) & eq(e.a.1, e.b.1)));
        }
    }
    let t = Topology::from_polylines_binary(pts(&inp.a), pts(&inp.b), lit(inp.fam.eps));
    let (ea, eb) = (all_edges(&inp.a), all_edges(&inp.b));
    let get = |w: &BinaryWindingNumber| vec![w.shape_a, w.shape_b];
    sides(&t, inp.margin, &get, &[ea.clone(), eb.clone()]);
    completeness(&t, inp.margin, &get, &[ea, eb], probe(inp.probe_lim));
    cover("done");
}

fn main() {
    run_cli(&[("binary", binary), ("tagged", tagged), ("single", single), ("polylines", polylines)]);
}
