//! Contract stubs installed in the symbolic copy (see DESIGN.md, "contracts").
//!
//! They are active only for harnesses run with `--param contract=1` and only for cubics that are
//! straight lines; otherwise the real code runs.
use crate::curve::{CurveOrder, Order};
use kurbo::{CubicBez, Point};
use symf::*;

fn same(a: S, b: S) -> bool {
    a == b
}

/// x on the straight line c at height y.
fn line_x(c: &CubicBez, y: S) -> S {
    let (p0, p3) = (c.p0, c.p3);
    if !is_symbolic(p3.x - p0.x) && val(p3.x - p0.x) == 0.0 {
        return p0.x;
    }
    if same(y, p0.y) {
        return p0.x;
    }
    if same(y, p3.y) {
        return p3.x;
    }
    let (dy, dx) = (p3.y - p0.y, p3.x - p0.x);
    if !is_symbolic(dx) && !is_symbolic(dy) {
        return p0.x + (y - p0.y) * (dx / dy);
    }
    let t = (y - p0.y) / dy;
    p0.x + t * dx
}

fn is_line(c: &CubicBez) -> bool {
    // The control points of `Segment::Line::to_kurbo_cubic`
    let t = lit(1. / 3.);
    let q = c.p0 + t * (c.p3 - c.p0);
    !is_symbolic(q.x - c.p1.x) && val(q.x - c.p1.x) == 0.0 && !is_symbolic(q.y - c.p1.y) && val(q.y - c.p1.y) == 0.0
}

pub fn intersect_cubics(c0: &CubicBez, c1: &CubicBez, tol: &S, _acc: &S) -> Option<CurveOrder> {
    if param("contract", 0) == 0 || !is_line(c0) || !is_line(c1) {
        return None;
    }
    let tol = *tol;
    let y0 = c0.p0.y.max(c1.p0.y);
    let y1 = c0.p3.y.min(c1.p3.y);
    if !(y0 < y1) {
        return None;
    }
    let mut ret = CurveOrder::new(y0);
    let d0 = line_x(c1, y0) - line_x(c0, y0);
    let d1 = line_x(c1, y1) - line_x(c0, y1);
    let cls = |d: S| {
        if d > tol {
            Order::Left
        } else if d < -tol {
            Order::Right
        } else {
            Order::Ish
        }
    };
    let (o0, o1) = (cls(d0), cls(d1));
    if o0 == o1 {
        ret.push(y1, o0);
        return Some(ret);
    }
    // height at which d reaches `target`
    let dd = d1 - d0;
    let dy = y1 - y0;
    let slope0 = (c0.p3.x - c0.p0.x) / (c0.p3.y - c0.p0.y);
    let slope1 = (c1.p3.x - c1.p0.x) / (c1.p3.y - c1.p0.y);
    let ds = slope1 - slope0;
    let cross = |target: S| {
        let y = if !is_symbolic(ds) { y0 + (target - d0) / ds } else { y0 + dy * ((target - d0) / dd) };
        y.max(y0).min(y1)
    };
    if o0 == Order::Left {
        ret.push(cross(tol), Order::Left);
    } else if o0 == Order::Right {
        ret.push(cross(-tol), Order::Right);
    }
    if o1 == Order::Ish {
        ret.push(y1, Order::Ish);
    } else {
        ret.push(cross(if o1 == Order::Left { tol } else { -tol }), Order::Ish);
        ret.push(y1, o1);
    }
    Some(ret)
}

pub fn y_subsegment(c: &CubicBez, y0: &S, y1: &S) -> Option<CubicBez> {
    if param("contract", 0) == 0 || !is_line(c) {
        return None;
    }
    let p0 = Point::new(line_x(c, *y0), *y0);
    let p3 = Point::new(line_x(c, *y1), *y1);
    let t = |k: f64| p0 + lit(k) * (p3 - p0);
    Some(CubicBez { p0, p1: t(1. / 3.), p2: t(2. / 3.), p3 })
}
