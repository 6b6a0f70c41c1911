//! Containers: the indexable tree, the segment arena, and the validation of inputs.
use harness::*;
use linesweeper::treevec::TreeVec;
use linesweeper::{SegIdx, Segments};

// ---------------------------------------------------------------------------- tree

/// A tree and a vector with the same elements: n appended elements, after which `del` elements are
/// removed starting from index `at` (to leave nodes of many fill levels).
fn tree<const B: usize>() -> (TreeVec<i32, B>, Vec<i32>) {
    let n = param("n", 9) as i32;
    let mut t: TreeVec<i32, B> = (0..n).collect();
    let mut v: Vec<i32> = (0..n).collect();
    // `front`: insert the elements at the front instead
    for k in 0..param("front", 0) as i32 {
        t.insert(0, 1000 + k);
        v.insert(0, 1000 + k);
    }
    let at = param("at", 0) as usize;
    for _ in 0..param("del", 0) {
        let a = t.remove(at);
        let b = v.remove(at);
        check("removed-element", from_bool(a == b));
    }
    (t, v)
}

fn same_elements<const B: usize>(t: &mut TreeVec<i32, B>, v: &[i32]) {
    t.check_invariants();
    check("length", from_bool(t.len() == v.len() && t.is_empty() == v.is_empty()));
    check("iteration", from_bool(t.iter().copied().eq(v.iter().copied())));
    check("mutable-iteration", from_bool(t.iter_mut().map(|x| *x).eq(v.iter().copied())));
    check("indexing", from_bool((0..v.len() + 3).all(|i| t.get(i) == v.get(i) && t.get_mut(i).map(|x| *x) == v.get(i).copied())));
}

fn ops_n<const B: usize>() {
    let (mut t, mut v) = tree::<B>();
    same_elements(&mut t, &v);
    for k in 0..param("ops", 2) {
        let rm = !v.is_empty() && choose(&format!("op{k}"), 2) == 1;
        if rm {
            let i = choose(&format!("i{k}"), v.len());
            let (a, b) = (t.remove(i), v.remove(i));
            check("removed-element", from_bool(a == b));
        } else {
            let i = choose(&format!("i{k}"), v.len() + 1);
            t.insert(i, 100 + k as i32);
            v.insert(i, 100 + k as i32);
        }
        same_elements(&mut t, &v);
    }
    cover("done");
}

fn ranges_n<const B: usize>() {
    let (mut t, mut v) = tree::<B>();
    // one operation first, so that nodes are not all alike
    if !v.is_empty() {
        let i = choose("i", v.len());
        t.remove(i);
        v.remove(i);
    }
    let s = choose("s", v.len() + 1);
    let e = s + choose("e", v.len() + 1 - s);
    let want = &v[s..e];
    check("range", from_bool(t.range(s..e).copied().eq(want.iter().copied())));
    check("range-mut", from_bool(t.range_mut(s..e).map(|x| *x).eq(want.iter().copied())));
    check("range-from", from_bool(t.range(s..).copied().eq(v[s..].iter().copied())));
    check("range-to", from_bool(t.range(..e).copied().eq(v[..e].iter().copied()) && t.range(..).count() == v.len()));
    if e < v.len() {
        check("range-inclusive", from_bool(t.range(s..=e).copied().eq(v[s..=e].iter().copied())));
        check("range-mut-inclusive", from_bool(t.range_mut(..=e).map(|x| *x).eq(v[..=e].iter().copied())));
    }
    // writing through mutable ranges changes just those elements
    for x in t.range_mut(s..e) {
        *x += 50;
    }
    for x in &mut v[s..e] {
        *x += 50;
    }
    same_elements(&mut t, &v);
    cover("done");
}

/// Keys in increasing order at arbitrary heights, looked up by an arbitrary key.
fn find_n<const B: usize>() {
    let n = param("n", 9) as usize;
    let del = param("del", 0) as usize;
    let mut keys: Vec<F> = vec![];
    for i in 0..n {
        let k = input(&format!("k{i}"), -50, 50, 0);
        if let Some(p) = keys.last() {
            assume(le(*p, k));
        }
        keys.push(k);
    }
    let mut t: TreeVec<F, B> = TreeVec::new();
    // extra elements that are removed again
    for i in 0..n + del {
        t.insert(i, if i < del { lit(0.0) } else { keys[i - del] });
    }
    for _ in 0..del {
        t.remove(0);
    }
    let q = input("q", -51, 51, 0);
    let r = t.partition_point(|k| *k < q);
    check("partition-point-in-range", from_bool(r <= n));
    for (i, k) in keys.iter().enumerate() {
        check("partition-point", if i < r { lt(*k, q) } else { le(q, *k) });
    }
    cover("done");
}

/// The predicate is not monotone: the answer is still a place where it changes.
fn change_n<const B: usize>() {
    let n = param("n", 9) as usize;
    let bits: Vec<usize> = (0..n).collect();
    let t: TreeVec<usize, B> = bits.into_iter().collect();
    let b: Vec<bool> = (0..n).map(|i| choose(&format!("p{i}"), 2) == 1).collect();
    let r = t.partition_point(|i| b[*i]);
    check("partition-point-in-range", from_bool(r <= n));
    check("predicate-changes-there", from_bool((r == 0 || b[r - 1]) && (r == n || !b[r])));
    cover("done");
}

fn by_width(f4: fn(), f5: fn(), f6: fn(), f8: fn()) {
    match param("b", 4) {
        4 => f4(),
        5 => f5(),
        6 => f6(),
        _ => f8(),
    }
}
fn ops() {
    by_width(ops_n::<4>, ops_n::<5>, ops_n::<6>, ops_n::<8>)
}
fn ranges() {
    by_width(ranges_n::<4>, ranges_n::<5>, ranges_n::<6>, ranges_n::<8>)
}
fn find() {
    by_width(find_n::<4>, find_n::<5>, find_n::<6>, find_n::<8>)
}
fn change() {
    by_width(change_n::<4>, change_n::<5>, change_n::<6>, change_n::<8>)
}

// ---------------------------------------------------------------------------- arena

fn pt(p: ls::Point) -> P {
    (p.x, p.y)
}
fn eqp(a: P, b: P) -> Fm {
    eq(a.0, b.0) & eq(a.1, b.1)
}
/// sweep order: by height, then from left to right
fn before(a: P, b: P) -> Fm {
    lt(a.1, b.1) | (eq(a.1, b.1) & le(a.0, b.0))
}

/// A chain of directed edges that was added to the arena.
struct Chain {
    edges: Vec<(P, P)>,
    closed: bool,
}

/// The arena holds exactly these chains, in order.
fn arena_is(segs: &Segments, chains: &[Chain]) {
    segs.check_invariants();
    let want: usize = chains.iter().map(|c| c.edges.len()).sum();
    check("number-of-segments", from_bool(segs.len() == want && segs.indices().count() == want && segs.segments().count() == want));
    if segs.len() != want {
        return;
    }
    let all: Vec<SegIdx> = segs.indices().collect();
    let mut k = 0;
    for c in chains {
        let m = c.edges.len();
        for (i, (a, b)) in c.edges.iter().enumerate() {
            let idx = all[k + i];
            check("original-ends", eqp(pt(segs.oriented_start(idx)), *a) & eqp(pt(segs.oriented_end(idx)), *b));
            let (s, e) = (pt(segs[idx].start()), pt(segs[idx].end()));
            check("stored-in-sweep-order", before(s, e));
            let pos = segs.positively_oriented(idx);
            check("orientation-flag", if pos { eqp(s, *a) & eqp(e, *b) } else { eqp(s, *b) & eqp(e, *a) });
            let next = if i + 1 < m { Some(all[k + i + 1]) } else { c.closed.then_some(all[k]) };
            let prev = if i > 0 { Some(all[k + i - 1]) } else { c.closed.then(|| all[k + m - 1]) };
            check("next-in-contour", from_bool(segs.contour_next(idx) == next));
            check("previous-in-contour", from_bool(segs.contour_prev(idx) == prev));
        }
        k += m;
    }
    // the schedule of the sweep
    let (en, ex) = (segs.entrances(), segs.exits());
    check("every-segment-enters-once", from_bool(en.len() == want && all.iter().all(|i| en.iter().filter(|e| e.1 == *i).count() == 1)));
    check("entrance-heights", all_of(en.iter().map(|(y, i)| eq(*y, segs[*i].start().y))));
    for w in en.windows(2) {
        check("entrances-by-height", le(w[0].0, w[1].0));
    }
    for w in ex.windows(2) {
        check("exits-by-height", le(w[0].0, w[1].0));
    }
    for i in &all {
        let n = ex.iter().filter(|e| e.1 == *i).count();
        check("every-sloping-segment-exits-once", from_bool(n <= 1) & iff(from_bool(n == 0), horiz(segs, *i)));
    }
    check("exit-heights", all_of(ex.iter().map(|(y, i)| eq(*y, segs[*i].end().y))));
}
fn horiz(segs: &Segments, i: SegIdx) -> Fm {
    eq(segs[i].start().y, segs[i].end().y)
}
fn all_of(f: impl Iterator<Item = Fm>) -> Fm {
    all(f.collect::<Vec<_>>())
}
fn cyc(v: &[P]) -> Vec<(P, P)> {
    (0..v.len()).map(|i| (v[i], v[(i + 1) % v.len()])).collect()
}
fn points(name: &str, n: usize) -> Vec<P> {
    let lim = param("lim", 3);
    (0..n).map(|i| (input(&format!("{name}x{i}"), -lim, lim, 0), input(&format!("{name}y{i}"), -lim, lim, 0))).collect()
}

/// Polylines: open, closed, several at once; `mode` digits: 1 open, 2 closed, 3 two closed in one call,
/// 4 a single point, 5 nothing.
fn polylines() {
    let mut segs = Segments::default();
    let mut chains = vec![];
    for (j, d) in param("mode", 12).to_string().bytes().enumerate() {
        let n = param("n", 3) as usize;
        let v = points(&format!("{}", (b'a' + j as u8) as char), n);
        let lp = |v: &[P]| v.iter().map(|p| ls::Point::new(p.0, p.1)).collect::<Vec<_>>();
        match d {
            b'1' => {
                segs.add_points(lp(&v));
                chains.push(Chain { edges: v.windows(2).map(|w| (w[0], w[1])).collect(), closed: false });
            }
            b'2' => {
                segs.add_closed_polyline(lp(&v));
                chains.push(Chain { edges: cyc(&v), closed: true });
            }
            b'3' => {
                let w: Vec<P> = v.iter().map(|p| (p.0 + lit(1.0), -p.1)).collect();
                segs.add_closed_polylines([lp(&v), lp(&w)]);
                chains.push(Chain { edges: cyc(&v), closed: true });
                chains.push(Chain { edges: cyc(&w), closed: true });
            }
            b'4' => segs.add_points(lp(&v[..1])),
            b'6' => segs.add_closed_polyline(lp(&v[..1])),
            _ => segs.add_closed_polylines(Vec::<Vec<ls::Point>>::new()),
        }
    }
    arena_is(&segs, &chains);
    cover("done");
}

/// Paths with several subpaths; every subpath is a chain of `n` vertices that is closed by a close
/// element (style 0), by a final line (1), or left open (2).
fn paths() {
    let mut segs = Segments::default();
    let mut chains = vec![];
    let mut p = BezPath::new();
    let mut first_open: Option<(P, P)> = None;
    let must = param("must", 1) == 1;
    for (j, d) in param("mode", 12).to_string().bytes().enumerate() {
        let n = param("n", 3) as usize;
        let v = points(&format!("{}", (b'a' + j as u8) as char), n);
        p.move_to(KPoint::new(v[0].0, v[0].1));
        for q in &v[1..] {
            p.line_to(KPoint::new(q.0, q.1));
        }
        let mut es: Vec<(P, P)> = v.windows(2).map(|w| (w[0], w[1])).collect();
        match d {
            b'1' => p.close_path(),
            b'2' => p.line_to(KPoint::new(v[0].0, v[0].1)),
            _ => {}
        }
        if d < b'3' {
            es.push((v[n - 1], v[0]));
        }
        // points repeated at once give no segment
        es.retain(|(a, b)| !branch(eqp(*a, *b)));
        if es.is_empty() {
            continue;
        }
        let (s, e) = (es[0].0, es[es.len() - 1].1);
        let closed = branch(eqp(s, e));
        if !closed && first_open.is_none() {
            first_open = Some((s, e));
        }
        chains.push(Chain { edges: es, closed });
    }
    if must {
        match (segs.add_bez_path(&p), first_open) {
            (Ok(()), None) => arena_is(&segs, &chains),
            (Err(e), Some((s, t))) => check("open-ends-reported", eqp((e.start_point.x, e.start_point.y), s) & eqp((e.end_point.x, e.end_point.y), t)),
            _ => check("closed-iff-ends-meet", ff()),
        }
        check("closed-iff-ends-meet", tt());
    } else {
        let r = segs.add_non_closed_bez_path(&p);
        check("open-paths-accepted", from_bool(r.is_ok()));
        arena_is(&segs, &chains);
    }
    cover("done");
}

// ---------------------------------------------------------------------------- validation

/// One fault anywhere in the input of a boolean operation.
fn reject() {
    let which = param("which", 0);
    let mut k = 0usize;
    let (mut a, mut b) = (BezPath::new(), BezPath::new());
    // 7 points per curved subpath: 14 coordinates
    let n_coord = 2 * match which {
        0 => 8,
        1 => 16,
        _ => 8 + 8,
    };
    let at = choose("at", n_coord + 1);
    let bad = if at < n_coord { [f64::NAN, f64::INFINITY, f64::NEG_INFINITY][choose("what", 3)] } else { 0.0 };
    let x0 = if param("span", 0) == 0 { lit(0.0) } else { input("x", 0, param("span", 0), 0) };
    let mut co = |v: F| {
        let r = if k == at { lit(bad) } else { v };
        k += 1;
        r
    };
    let mut square = |p: &mut BezPath, x: F, co: &mut dyn FnMut(F) -> F| {
        let mut q = |i: f64, j: f64| KPoint::new(co(x + lit(i)), co(lit(j)));
        p.move_to(q(0., 0.));
        p.line_to(q(4., 0.));
        p.line_to(q(4., 4.));
        p.line_to(q(0., 4.));
        p.close_path();
    };
    let curvy = |p: &mut BezPath, co: &mut dyn FnMut(F) -> F| {
        // constant coordinates: the curve solver is not the point here
        let mut q = |i: f64, j: f64| KPoint::new(co(lit(i)), co(lit(j)));
        p.move_to(q(0., 20.));
        p.quad_to(q(2., 26.), q(4., 22.));
        p.line_to(q(8., 20.));
        p.curve_to(q(9., 17.), q(7., 16.), q(6., 16.));
        p.line_to(q(1., 16.));
        p.close_path();
    };
    match which {
        0 => {
            square(&mut a, x0, &mut co);
            square(&mut b, x0 + lit(2.0), &mut co);
        }
        1 => {
            square(&mut a, x0, &mut co);
            square(&mut a, lit(30.0), &mut co);
            square(&mut b, x0 + lit(2.0), &mut co);
            square(&mut b, lit(40.0), &mut co);
        }
        2 => {
            square(&mut a, lit(0.0), &mut co);
            curvy(&mut a, &mut co);
            square(&mut b, lit(2.0), &mut co);
        }
        _ => {
            square(&mut a, lit(0.0), &mut co);
            square(&mut b, lit(2.0), &mut co);
            curvy(&mut b, &mut co);
        }
    }
    let r = ls::binary_op(&a, &b, RULES[choose("rule", 2)], OPS[choose("op", 4)]);
    match r {
        Ok(_) => check("bad-coordinates-are-rejected", from_bool(at >= n_coord)),
        Err(ls::Error::NaN) => check("nan-error-only-for-nan", from_bool(bad.is_nan())),
        Err(ls::Error::Infinity) => check("infinity-error-only-for-infinity", from_bool(bad.is_infinite())),
        Err(_) => check("no-other-error", ff()),
    }
    cover("done");
}

/// Subpaths that may end anywhere.
fn open() {
    let (mut a, mut b) = (BezPath::new(), BezPath::new());
    let x = input("ex", -3, 3, 0);
    let y = input("ey", -3, 3, 0);
    let sub = param("sub", 0);
    let closed = branch(eq(x, lit(0.0)) & eq(y, lit(0.0)));
    let (x, y) = if closed { (lit(0.0), lit(0.0)) } else { (x, y) };
    for j in 0..4 {
        let p = if j < 2 { &mut a } else { &mut b };
        let o = 10.0 * j as f64;
        let q = |i: f64, j: f64| KPoint::new(lit(o + i), lit(j));
        p.move_to(q(0., 0.));
        p.line_to(q(5., 0.));
        p.line_to(q(5., 5.));
        if j == sub {
            p.line_to(KPoint::new(lit(o) + x, y));
        } else if j % 2 == 0 {
            p.line_to(q(0., 0.));
        } else {
            p.close_path();
        }
    }
    let o = lit(10.0 * sub as f64);
    match ls::binary_op(&a, &b, RULES[choose("rule", 2)], OPS[choose("op", 4)]) {
        Ok(_) => check("open-paths-are-rejected", from_bool(closed)),
        Err(ls::Error::NonClosedPath(e)) => check(
            "the-open-ends-are-named",
            from_bool(!closed) & eqp((e.start_point.x, e.start_point.y), (o, lit(0.0))) & eqp((e.end_point.x, e.end_point.y), (o + x, y)),
        ),
        Err(_) => check("no-other-error", ff()),
    }
    cover("done");
}

fn main() {
    run_cli(&[("ops", ops), ("ranges", ranges), ("find", find), ("change", change), ("polylines", polylines), ("paths", paths), ("reject", reject), ("open", open)]);
}
