//! End-to-end boolean operations on polygons with symbolic coordinates.
use harness::*;

/// Params: op 0..4, rule 0..2, style, and those of `build_input`.
fn boolop() {
    let inp = build_input();
    let op = OPS[param("op", 0) as usize];
    let ru = RULES[param("rule", 0) as usize];
    let (pa, pb) = (path_of(&inp.a, param("style", 0)), path_of(&inp.b, param("style", 0)));
    let c = ls::binary_op_with_eps(&pa, &pb, ru, op, lit(inp.fam.eps)).unwrap();
    let pr = probe(inp.probe_lim);
    let (ea, eb) = (all_edges(&inp.a), all_edges(&inp.b));
    let expect = apply(op, rule(ru, &winding(&ea, pr)), rule(ru, &winding(&eb, pr)));
    let w = total(&c, pr, inp.margin);
    check("set-semantics", iff(w.when(|k| k != 0), expect.clone()));
    check("output-winds-0-or-1", w.is(0) | w.is(1));
    check_contours(&c, pr, inp.margin);
    let mut e = ea;
    e.extend(eb);
    check_vertices(&c, &e, if inp.margin == 0.0 { 0.0 } else { inp.fam.eps * param("vm", 4) as f64 });
    cover("done");
    let n = c.contours().count();
    cover(match n {
        0 => "contours:0",
        1 => "contours:1",
        2 => "contours:2",
        3 => "contours:3",
        _ => "contours:4+",
    });
    if c.contours().any(|k| k.parent.is_some()) {
        cover("has-hole");
    }
    if c.contours().any(|k| k.parent.map(|p| c[p].parent.is_some()) == Some(true)) {
        cover("has-island-in-hole");
    }
}

fn main() {
    run_cli(&[("boolop", boolop)]);
}
