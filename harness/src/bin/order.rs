//! Operations on `CurveOrder` values with symbolic heights.
use harness::*;
use linesweeper::curve::{CurveInteraction, CurveOrder, Order};

const O: [Order; 3] = [Order::Left, Order::Ish, Order::Right];

/// One pushed interval
#[derive(Clone, Copy)]
struct Iv {
    s: F,
    e: F,
    o: Order,
}

/// A curve order made by n pushes (n = param), in increasing height.  With `strict`, every pushed
/// interval has positive height.
fn make(strict: bool) -> (CurveOrder, Vec<Iv>, F, F) {
    let n = param("n", 4) as usize;
    let start = input("s", -64, 64, 0);
    let mut c = CurveOrder::new(start);
    let mut iv = vec![];
    let mut last = start;
    for k in 0..n {
        let e = input(&format!("e{k}"), -64, 64, 0);
        let o = O[choose(&format!("o{k}"), 3)];
        assume(if strict || k == 0 { lt(last, e) } else { le(last, e) });
        c.push(e, o);
        iv.push(Iv { s: last, e, o });
        last = e;
    }
    (c, iv, start, last)
}

fn ivs(c: &CurveOrder) -> Vec<Iv> {
    c.iter().map(|(s, e, o)| Iv { s, e, o }).collect()
}

/// the order at y, for y in the interior of an interval
fn at(iv: &[Iv], y: F, o: Order) -> Fm {
    any(iv.iter().filter(|i| i.o == o).map(|i| lt(i.s, y) & lt(y, i.e)))
}

/// contiguous, starts and ends where it should, alternates through Ish
fn well_formed(what: &str, c: &CurveOrder, start: F, end: F) {
    c.check_invariants();
    let v = ivs(c);
    check(&format!("{what}-starts-and-ends-right"), from_bool(!v.is_empty()) & eq(v[0].s, start) & eq(v[v.len() - 1].e, end));
    for (i, w) in v.windows(2).enumerate() {
        check(&format!("{what}-contiguous"), eq(w[0].e, w[1].s) & le(w[0].s, w[0].e));
        check(&format!("{what}-alternates-through-close"), from_bool((w[0].o == Order::Ish) != (w[1].o == Order::Ish)));
        let _ = i;
    }
}

fn push() {
    let (c, iv, start, end) = make(false);
    well_formed("push", &c, start, end);
    let y = input("y", -65, 64, 1) + lit(0.5);
    let v = ivs(&c);
    for o in O {
        check("push-keeps-the-order", implies(at(&iv, y, o), at(&v, y, o)));
    }
    // flip
    let f = c.flip();
    let w = ivs(&f);
    check("flip-same-heights", from_bool(v.len() == w.len()) & all(v.iter().zip(&w).map(|(a, b)| eq(a.s, b.s) & eq(a.e, b.e))));
    check("flip-reverses-orders", from_bool(v.iter().zip(&w).all(|(a, b)| b.o == a.o.flip() && a.o == b.o.flip())));
    check("flip-left-is-right", from_bool(v.iter().zip(&w).all(|(a, b)| (a.o == Order::Left) == (b.o == Order::Right) && (a.o == Order::Ish) == (b.o == Order::Ish))));
    cover("done");
}

fn queries() {
    let (c, iv, start, end) = make(true);
    let y = input("y", -64, 64, 0);
    assume(le(start, y) & le(y, end));
    // the first interval that contains y
    let got = c.order_at(y);
    for (k, i) in iv.iter().enumerate() {
        // interior of pushed interval k, or its end
        let opposite = k + 1 < iv.len() && iv[k + 1].o == i.o.flip() && i.o != Order::Ish;
        let _ = opposite;
        check("order-at-is-the-order-there", implies(lt(i.s, y) & le(y, i.e), from_bool(got == i.o)));
        if k == 0 {
            check("order-at-start", implies(eq(y, start), from_bool(got == i.o)));
        }
    }
    if branch(lt(y, end)) {
        let (s, e, o) = c.entry_at(y);
        check("entry-contains-the-height", le(s, y) & lt(y, e));
        for i in &iv {
            check("entry-has-the-order-after-the-height", implies(le(i.s, y) & lt(y, i.e), from_bool(o == i.o)));
        }
        // the first definite order among what ends after y
        let mut before = tt();
        let got = c.order_after(y);
        for i in &iv {
            if i.o != Order::Ish {
                check("order-after-is-the-next-definite-order", implies(before.clone() & lt(y, i.e), from_bool(got == i.o)));
                before = before & le(i.e, y);
            }
        }
        check("order-after-close-when-nothing-definite", implies(before, from_bool(got == Order::Ish)));
    } else {
        check("order-after-at-the-end", from_bool(c.order_after(y) == iv[iv.len() - 1].o));
    }
    cover("done");
}

fn slop() {
    let (c, iv, start, end) = make(true);
    let s = input("slop", 0, 12, -1);
    let y = input("y", -256, 256, -2) + lit(0.125);
    assume(lt(start, y) & lt(y, end));
    let d = c.with_y_slop(s);
    well_formed("slop", &d, start, end);
    let v = ivs(&d);
    for o in [Order::Left, Order::Right] {
        // nothing else within slop of y
        let far = all(iv.iter().filter(|i| i.o != o).map(|i| lin_lt(&[(1.0, i.e), (1.0, s), (-1.0, y)]) | lin_lt(&[(1.0, y), (1.0, s), (-1.0, i.s)])));
        let near = any(iv.iter().filter(|i| i.o != o).map(|i| lin_lt(&[(1.0, y), (-1.0, s), (-1.0, i.e)]) & lin_lt(&[(1.0, i.s), (-1.0, s), (-1.0, y)])));
        check("slop-keeps-orders-away-from-close-regions", implies(far, at(&v, y, o)));
        check("slop-expands-close-regions", implies(near, !at(&v, y, o)));
        if branch(at(&v, y, o)) {
            cover("definite");
        }
    }
    cover("done");
}

fn touch() {
    let (c, iv, start, end) = make(true);
    let y = input("y", -64, 64, 0);
    assume(le(start, y) & le(y, end));
    // reference: merge pushed intervals, with a zero-height close interval between opposite orders
    let mut v: Vec<Iv> = vec![];
    for i in &iv {
        match v.last_mut() {
            Some(l) if l.o == i.o => l.e = i.e,
            Some(l) if l.o != Order::Ish && i.o != Order::Ish => {
                let e = l.e;
                v.push(Iv { s: e, e, o: Order::Ish });
                v.push(*i);
            }
            _ => v.push(*i),
        }
    }
    let mut i = 0;
    while i < v.len() && branch(le(v[i].e, y)) {
        i += 1;
    }
    let mid = |i: &Iv| (i.s + i.e) / lit(2.0);
    let want: Option<(bool, F)> = loop {
        while i < v.len() && v[i].o == Order::Left {
            i += 1;
        }
        if i >= v.len() {
            break None;
        }
        if v[i].o == Order::Right {
            break Some((true, y));
        }
        if i + 1 == v.len() {
            break None;
        }
        if v[i + 1].o == Order::Right {
            break Some((true, mid(&v[i])));
        }
        if branch(lt(y, v[i].s)) {
            break Some((false, mid(&v[i])));
        }
        i += 1;
    };
    match (c.next_touch_after(y), want) {
        (None, w) => check("next-touch-none", from_bool(w.is_none())),
        (Some(CurveInteraction::Cross(h)), w) => check("next-touch-cross", w.map_or(ff(), |w| from_bool(w.0) & eq(h, w.1))),
        (Some(CurveInteraction::Touch(h)), w) => {
            cover("touch");
            check("next-touch-touch", w.map_or(ff(), |w| from_bool(!w.0) & eq(h, w.1)))
        }
    }
    cover("done");
}

fn main() {
    run_cli(&[("push", push), ("queries", queries), ("slop", slop), ("touch", touch)]);
}
