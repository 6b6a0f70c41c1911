//! The sweep line itself: lines, positions, orders and subdivision points.
use harness::*;
use linesweeper::sweep::{OutputEvent, SegmentsConnectedAtX, SweepLineBuffers, SweepLineRangeBuffers, Sweeper};
use linesweeper::{SegIdx, Segments};

/// Straight segment in sweep order: a first, direction class s.
#[derive(Clone, Copy)]
struct Sg {
    a: P,
    b: P,
    s: Dir,
}
impl Sg {
    /// x at height y as a linear form
    fn x(&self, y: F) -> F {
        match self.s {
            V => self.a.0,
            H => panic!("x of a horizontal"),
            k => self.a.0 + lit(k.slope()) * (y - self.a.1),
        }
    }
}

/// `--param open=DIGITS`: independent segments (1 vertical, 2 horizontal, 3 diagonal down-right, 4
/// diagonal down-left) instead of polygons.
fn arena() -> (Segments, Family) {
    let mut segs = Segments::default();
    let open = param("open", 0);
    if open == 0 {
        let inp = build_input();
        let all: Vec<Shape> = inp.a.iter().chain(&inp.b).cloned().collect();
        let poly = param("poly", 0) == 1;
        for s in &all {
            if poly {
                for e in s.edges() {
                    assume(!(eq(e.a.0, e.b.0) & eq(e.a.1, e.b.1)));
                }
                segs.add_closed_polyline(s.v.iter().map(|q| ls::Point::new(q.0, q.1)));
            } else {
                segs.add_bez_path(&path_of(std::slice::from_ref(s), param("style", 0))).unwrap();
            }
        }
        (segs, inp.fam)
    } else {
        let fam = Family::from_params();
        let k = param("k", 8) as f64;
        for (i, d) in open.to_string().bytes().enumerate() {
            let n = |c: &str| format!("{}{c}", (b'a' + i as u8) as char);
            let (x, y) = (fam.coord(&n("x")), fam.coord(&n("y")));
            let q = match d - b'0' {
                1 => (x, fam.coord(&n("z"))),
                2 => (fam.coord(&n("z")), y),
                3 => (x + lit(k), y + lit(k)),
                _ => (x - lit(k), y + lit(k)),
            };
            assume(!(eq(x, q.0) & eq(y, q.1)));
            let (a, b) = if param("rev", 0) >> i & 1 == 1 { (q, (x, y)) } else { ((x, y), q) };
            if param("style", 0) == 0 {
                segs.add_points([a, b].map(|p| ls::Point::new(p.0, p.1)));
            } else {
                let mut p = BezPath::new();
                p.move_to(KPoint::new(a.0, a.1));
                p.line_to(KPoint::new(b.0, b.1));
                segs.add_non_closed_bez_path(&p).unwrap();
            }
        }
        (segs, fam)
    }
}

fn straight(segs: &Segments) -> Vec<Sg> {
    segs.indices()
        .map(|i| {
            let (p, q) = (segs[i].start(), segs[i].end());
            let (a, b) = ((p.x, p.y), (q.x, q.y));
            let s = Dir::closest(a, b);
            let s = if segs[i].is_horizontal() { H } else { s };
            Sg { a, b, s }
        })
        .collect()
}

fn near(d: &[(f64, F)]) -> Fm {
    within(d, 1.0 / 1024.0)
}

struct Line {
    y: F,
    /// events in the order they were reported
    ev: Vec<OutputEvent>,
    /// the new order
    order: Vec<SegIdx>,
    exits: Vec<SegIdx>,
    /// the first position of every range, and what happens there
    first: Vec<(F, Vec<OutputEvent>)>,
}

fn run(segs: &Segments, eps: F) -> Vec<Line> {
    let mut sw = Sweeper::new(segs, eps);
    let (mut lb, mut rb) = (SweepLineBuffers::default(), SweepLineRangeBuffers::default());
    let mut lines = vec![];
    while let Some(mut line) = sw.next_line(&mut lb) {
        let y = line.y();
        check("line-knows-its-tolerance", eq(line.eps(), eps));
        let mut ev = vec![];
        let mut first = vec![];
        let mut last_end: Option<usize> = None;
        while let Some(mut range) = line.next_range(&mut rb, segs) {
            let r = range.seg_range();
            let (lo, hi) = (r.segs.start, r.segs.end);
            check("ranges-do-not-overlap", from_bool(last_end.map(|e| lo >= e).unwrap_or(true) && lo <= hi));
            last_end = Some(hi);
            let (old, new): (Vec<_>, Vec<_>) = (range.old_segment_range().collect(), range.segment_range().collect());
            let mut last: Option<F> = None;
            let mut here: Vec<OutputEvent> = vec![];
            while let Some(x) = range.x() {
                let Some(batch) = range.events() else { break };
                if let Some(l) = last {
                    check("positions-increase-along-a-line", lt(l, x));
                }
                for e in &batch {
                    // between the previous position and this one
                    check("event-in-its-batch", le(e.larger_x(), x) & last.map(|l| le(l, e.smaller_x())).unwrap_or(tt()));
                    here.push(e.clone());
                }
                if last.is_none() {
                    first.push((x, batch));
                }
                last = Some(x);
            }
            // what crosses the range from above are the old segments, from left to right; below, the new ones
            for (above, want, name) in [(true, &old, "old-order-of-a-range"), (false, &new, "new-order-of-a-range")] {
                let mut got: Vec<(F, SegIdx)> = vec![];
                for e in &here {
                    if above && e.connected_above {
                        got.push((e.x0, e.seg_idx));
                    }
                    if !above && e.connected_below {
                        got.push((e.x1, e.seg_idx));
                    }
                }
                let mut ok = got.len() == want.len();
                let mut xs = vec![];
                for s in want.iter() {
                    match got.iter().find(|g| g.1 == *s) {
                        Some(g) => xs.push(g.0),
                        None => ok = false,
                    }
                }
                check(name, from_bool(ok) & all(xs.windows(2).map(|w| le(w[0], w[1]))));
            }
            ev.extend(here);
        }
        let mut order = vec![];
        let mut exits = vec![];
        let mut i = 0;
        while let Some(s) = line.line_segment(i) {
            order.push(s);
            if segs[s].end().y == y {
                exits.push(s);
            }
            i += 1;
        }
        lines.push(Line { y, ev, order, exits, first });
    }
    lines
}

/// Every segment's events form one chain from its start to its end.
fn chains(segs: &Segments, sg: &[Sg], lines: &[Line], eps: f64) {
    for w in lines.windows(2) {
        check("lines-increase", lt(w[0].y, w[1].y));
    }
    for i in segs.indices() {
        let s = &sg[i.0];
        let mut chain: Vec<(F, OutputEvent)> = vec![];
        for l in lines {
            let mut evs: Vec<OutputEvent> = l.ev.iter().filter(|e| e.seg_idx == i).cloned().collect();
            // reported by increasing x; the segment may run the other way
            if evs.iter().any(|e| val(e.x1) < val(e.x0)) {
                evs.reverse();
            }
            for e in evs {
                chain.push((l.y, e));
            }
        }
        if chain.is_empty() {
            check("every-segment-is-visited", ff());
            continue;
        }
        let (y0, e0) = &chain[0];
        let (y1, e1) = &chain[chain.len() - 1];
        check("chain-starts-at-the-start", all([eq(*y0, s.a.1), eq(e0.x0, s.a.0), from_bool(!e0.connected_above)]));
        check("chain-ends-at-the-end", all([eq(*y1, s.b.1), eq(e1.x1, s.b.0), from_bool(!e1.connected_below)]));
        for w in chain.windows(2) {
            let ((ya, a), (yb, b)) = (&w[0], &w[1]);
            if a.connected_below || b.connected_above {
                check("chain-connected-across-lines", from_bool(a.connected_below && b.connected_above) & lt(*ya, *yb));
            } else {
                check("chain-connected-along-a-line", eq(*ya, *yb) & eq(a.x1, b.x0));
            }
        }
        for (y, e) in &chain {
            let m = 4.0 * eps;
            let ok = if s.s == H {
                all([lin_le(&[(1.0, s.a.0), (-1.0, e.smaller_x()), (-m, lit(1.0))]), lin_le(&[(1.0, e.larger_x()), (-1.0, s.b.0), (-m, lit(1.0))])])
            } else {
                let x = s.x(*y);
                within(&[(1.0, e.x0), (-1.0, x)], m) & within(&[(1.0, e.x1), (-1.0, x)], m)
            };
            check("event-on-its-segment", ok);
        }
    }
}

/// Left to right between any two lines, and for segments that meet the line.
fn orders(segs: &Segments, sg: &[Sg], lines: &[Line], tol: f64) {
    for (k, l) in lines.iter().enumerate() {
        let alive: Vec<SegIdx> = l.order.iter().filter(|s| !l.exits.contains(s)).cloned().collect();
        if k + 1 == lines.len() {
            check("nothing-left-at-the-end", from_bool(alive.is_empty()));
            continue;
        }
        let mid = (l.y + lines[k + 1].y) * lit(0.5);
        // exactly the segments that span the gap
        for i in segs.indices() {
            let s = &sg[i.0];
            let spans = if s.s == H { ff() } else { le(s.a.1, l.y) & lt(l.y, s.b.1) };
            let n = alive.iter().filter(|j| **j == i).count();
            check("segments-on-the-line", iff(spans, from_bool(n == 1)) & from_bool(n <= 1));
        }
        for q in 0..alive.len() {
            for p in 0..q {
                let (u, v) = (&sg[alive[p].0], &sg[alive[q].0]);
                check("left-to-right-below-the-line", lin_le(&[(1.0, u.x(mid)), (-1.0, v.x(mid)), (-tol, lit(1.0))]));
            }
        }
    }
}

/// Where two segments meet, both are subdivided.
fn meets(segs: &Segments, sg: &[Sg], lines: &[Line]) {
    // does segment i have an endpoint of an event near (x, y)
    let has = |i: SegIdx, x: F, y: F| -> Fm {
        let mut o = vec![];
        for l in lines {
            for e in l.ev.iter().filter(|e| e.seg_idx == i) {
                let h = near(&[(1.0, l.y), (-1.0, y)]);
                o.push(h.clone() & near(&[(1.0, e.x0), (-1.0, x)]));
                o.push(h & near(&[(1.0, e.x1), (-1.0, x)]));
            }
        }
        any(o)
    };
    let spans = |s: &Sg, y: F| le(s.a.1, y) & le(y, s.b.1);
    for j in segs.indices() {
        for i in segs.indices() {
            if i >= j {
                continue;
            }
            let (s, t) = (&sg[i.0], &sg[j.0]);
            let (p, meet) = match (s.s, t.s) {
                (H, H) => {
                    // overlapping: the inner endpoints subdivide the other one
                    for (u, v, vi) in [(s, t, j), (t, s, i)] {
                        for e in [u.a, u.b] {
                            let on = all([eq(e.1, v.a.1), le(v.a.0, e.0), le(e.0, v.b.0)]);
                            check("meeting-point-subdivides", implies(on, has(vi, e.0, e.1)));
                        }
                    }
                    continue;
                }
                (H, _) | (_, H) => {
                    let (h, o) = if s.s == H { (s, t) } else { (t, s) };
                    let x = o.x(h.a.1);
                    ((x, h.a.1), all([spans(o, h.a.1), le(h.a.0, x), le(x, h.b.0)]))
                }
                (a, b) if a == b => {
                    // parallel: overlap on a line
                    for (u, v, vi) in [(s, t, j), (t, s, i)] {
                        for e in [u.a, u.b] {
                            let on = spans(v, e.1) & eq(v.x(e.1), e.0);
                            check("meeting-point-subdivides", implies(on, has(vi, e.0, e.1)));
                        }
                    }
                    continue;
                }
                (a, b) => {
                    // x_s(y) = x_t(y)
                    let sl = |k: Dir| k.slope();
                    let y = (t.x(s.a.1) - s.a.0) * lit(1.0 / (sl(a) - sl(b))) + s.a.1;
                    ((s.x(y), y), spans(s, y) & spans(t, y))
                }
            };
            let m = meet.as_const() != Some(false) && branch(meet);
            if m {
                cover("meeting");
                check("meeting-point-subdivides", has(i, p.0, p.1) & has(j, p.0, p.1));
            }
        }
    }
}

/// The stepping interface reports the same positions and connections as the events.
fn stepping(segs: &Segments, eps: F, lines: &[Line]) {
    let mut sw = Sweeper::new(segs, eps);
    let (mut lb, mut rb) = (SweepLineBuffers::default(), SweepLineRangeBuffers::default());
    let mut conn = SegmentsConnectedAtX::default();
    let mut k = 0;
    while let Some(mut line) = sw.next_line(&mut lb) {
        if k >= lines.len() {
            check("stepping-same-lines", ff());
            return;
        }
        let l = &lines[k];
        check("stepping-same-lines", eq(line.y(), l.y));
        while let Some(mut range) = line.next_range(&mut rb, segs) {
            let (old, new): (Vec<_>, Vec<_>) = (range.old_segment_range().collect(), range.segment_range().collect());
            // events of segments in this range, or horizontal ones
            let (mut nu, mut nd) = (0, 0);
            while let Some(x) = range.x() {
                range.update_segments_at_x(&mut conn);
                let up: Vec<SegIdx> = conn.connected_up().collect();
                let down: Vec<SegIdx> = conn.connected_down().collect();
                nu += up.len();
                nd += down.len();
                for u in &up {
                    check("connected-up-at-its-position", any(l.ev.iter().filter(|e| e.seg_idx == *u && e.connected_above).map(|e| eq(e.x0, x))));
                }
                for d in &down {
                    check("connected-down-at-its-position", any(l.ev.iter().filter(|e| e.seg_idx == *d && e.connected_below).map(|e| eq(e.x1, x))));
                }
                let pos = |v: &[SegIdx], s: &SegIdx| v.iter().position(|t| t == s);
                let sorted = |v: &[SegIdx], o: &[SegIdx]| {
                    let p: Vec<_> = v.iter().map(|s| pos(o, s)).collect();
                    p.iter().all(|x| x.is_some()) && p.windows(2).all(|w| w[0] < w[1])
                };
                check("connected-in-line-order", from_bool(sorted(&up, &old) && sorted(&down, &new)));
                range.increase_x();
            }
            check("every-connection-is-reported", from_bool(nu == old.len() && nd == new.len()));
        }
        k += 1;
    }
    check("stepping-same-lines", from_bool(k == lines.len()));
}

/// Leaving a range early changes nothing in the ranges that follow.
fn skipping(segs: &Segments, eps: F, lines: &[Line]) {
    let mut sw = Sweeper::new(segs, eps);
    let (mut lb, mut rb) = (SweepLineBuffers::default(), SweepLineRangeBuffers::default());
    let mut k = 0;
    while let Some(mut line) = sw.next_line(&mut lb) {
        let Some(l) = lines.get(k) else { break };
        let mut i = 0;
        while let Some(mut range) = line.next_range(&mut rb, segs) {
            let x = range.x();
            let batch = range.events();
            match (l.first.get(i), x, batch) {
                (Some((x0, b0)), Some(x), Some(b)) => {
                    let same = |(p, q): (&OutputEvent, &OutputEvent)| {
                        eq(p.x0, q.x0) & eq(p.x1, q.x1) & from_bool((p.seg_idx, p.connected_above, p.connected_below) == (q.seg_idx, q.connected_above, q.connected_below))
                    };
                    check("leaving-a-range-early-is-harmless", eq(*x0, x) & from_bool(b0.len() == b.len()) & all(b0.iter().zip(&b).map(same)));
                }
                (None, None, None) => {}
                _ => check("leaving-a-range-early-is-harmless", ff()),
            }
            i += 1;
        }
        check("leaving-a-range-early-is-harmless", from_bool(i == l.first.len()));
        k += 1;
    }
    check("leaving-a-range-early-is-harmless", from_bool(k == lines.len()));
}

/// The callback interface reports the same events.
fn called(segs: &Segments, eps: F, lines: &[Line]) {
    let mut got: Vec<(F, OutputEvent)> = vec![];
    ls::sweep::sweep(segs, eps, |y, e| got.push((y, e)));
    let want: Vec<(F, &OutputEvent)> = lines.iter().flat_map(|l| l.ev.iter().map(|e| (l.y, e))).collect();
    check("callback-gets-every-event", from_bool(got.len() == want.len()));
    for (g, w) in got.iter().zip(&want) {
        let same = g.1.seg_idx == w.1.seg_idx && g.1.connected_above == w.1.connected_above && g.1.connected_below == w.1.connected_below;
        check("callback-gets-every-event", all([from_bool(same), eq(g.0, w.0), eq(g.1.x0, w.1.x0), eq(g.1.x1, w.1.x1)]));
    }
}

fn lines() {
    let (segs, fam) = arena();
    let sg = straight(&segs);
    let eps = lit(fam.eps);
    let ls = run(&segs, eps);
    chains(&segs, &sg, &ls, fam.eps);
    orders(&segs, &sg, &ls, 4.0 * fam.eps);
    meets(&segs, &sg, &ls);
    stepping(&segs, eps, &ls);
    skipping(&segs, eps, &ls);
    called(&segs, eps, &ls);
    if ls.iter().any(|l| l.ev.iter().any(|e| e.connected_above && e.connected_below)) {
        cover("crossing-line");
    }
    cover("done");
}

fn main() {
    run_cli(&[("lines", lines)]);
}
