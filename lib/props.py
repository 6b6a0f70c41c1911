"""The properties: statement, what is encoded, and the families (jobs) that decide each one."""
from job import Job

PROPS = {}
LEVELS = {}

ENGINE = [
    "f64 arithmetic is encoded over exact rationals on the integer/dyadic grids stated under bounds; every path's model is "
    "checked bit-for-bit against the f64 run of the same code, and paths where the two disagree are counted as 'diverged' and not claimed",
    "the source transformation (f64 -> symbolic scalar, private items made public) preserves behaviour; sampled path models are "
    "re-run on the natively compiled, untransformed arithmetic",
]
CONTRACT = ("two straight cubics are compared by a closed-form contract in place of the numeric solver (families with contract=1); "
            "the contract itself is spot-checked by property C10, and families without it run the real solver")


def P(pid, title, statement, over, text, why, files, mech, encodes, bounds, jobs, assumes=(), kani=None, only=(), level="model_checking", technique=None, note=None):
    PROPS[pid] = dict(title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, encodes=encodes,
                      bounds=bounds, jobs=jobs, assumes=list(assumes) + ENGINE, only=list(only), technique=technique, note=note)
    if kani:
        PROPS[pid]["kani"] = kani
    LEVELS[pid] = level


def fams(binary, harness, lines, secs):
    """one job per line; `seed=N`, `secs=N` and `paths=N` (a cap on path classes) are options, the rest are parameters"""
    out = []
    for l in lines:
        w = l.split()
        kw = dict(x.split("=") for x in w if x.startswith(("seed=", "secs=", "paths=")))
        ps = " ".join(x for x in w if not x.startswith(("seed=", "secs=", "paths=")))
        out.append(Job(binary, harness, ps, int(kw.get("secs", secs)), int(kw.get("seed", 0)), f"--paths {kw['paths']}" if "paths" in kw else ""))
    return out


def nra(js):
    for j in js:
        j.opts += " --nra"
    return js


def on(bg, shape, opts, tab=0):
    """a symbolic stamp on concrete background polygons; `tab` 1 and 2: stamps from the other tables"""
    t = {0: "", 1: "tab=1 ", 2: "tab2=1 "}[tab]
    return f"shapes={shape} {t}bg={bg} lim=70 contract=1 {opts}"


def grid(binary, harness, n, seed, secs, extra=lambda r: ""):
    """n pseudo-random (fixed seed) combinations of stamp, background, sets, orientation, start and style"""
    import random
    r = random.Random(seed)
    out = []
    for i in range(n):
        tab = r.randrange(3)
        sh = r.randrange(5, 10) if tab == 0 else r.randrange(1, 10)
        out.append(on(1 + i % 16, sh, f"bgset={r.randrange(2)} sets={r.randrange(2)} rev={r.randrange(2)} rot={r.randrange(4)} style={r.randrange(3)} seed={i + 1} " + extra(r), tab))
    return fams(binary, harness, out, secs)


def drawn(t, seed, kinds, n, harness="boolop", rules=(0, 1), extra="", reps=(1, 24), lim=8):
    """generated drawings (kinds 20-25): n of them per family, moved by a symbolic vector"""
    import random
    r = random.Random(seed)
    out = []
    for i in range(reps[0] if t == "quick" else reps[0] + reps[1]):
        for k in kinds:
            m = n.get(k, 20)
            op = f"op={r.randrange(4)} rule={r.choice(rules)} swap={r.randrange(2)} " if harness == "boolop" else ""
            out.append(f"kind={k} n={m} n0={seed * 1000 + i * 40} {op}eps=20 move=1 lim={lim} {extra}")
    return fams("curves", harness, out, 30 if t == "quick" else 120)


def scattered(t, seed, jobs, n=8, harness="boolop", kinds=(22, 25, 26, 27), lim=2, eps=(0, 20, 20, 10), telling=()):
    """many curved drawings, each in a small square of positions; `telling` adds drawings that have shown a defect"""
    import random
    r = random.Random(seed)
    out = []
    for i in range(jobs if t == "quick" else 12 * jobs):
        for k in kinds:
            e = r.choice(eps)
            op = f"op={r.randrange(4)} rule={r.randrange(2)} swap={r.randrange(2)} " if harness == "boolop" else ""
            out.append(f"kind={k} n={n} n0={r.randrange(10000) * n} {op}" + (f"eps={e} " if e else "") + f"move=1 lim={lim}")
    out += [f"{x} n=1 move=1 lim={lim}" for x in telling]
    return fams("curves", harness, out, 30 if t == "quick" else 120)


TELLING = [f"kind={k} n0={i} op={op} rule={rule}" + (f" eps={e}" if e else "") for k, op, rule, e, ns in (
    (22, 0, 0, 20, (67, 347, 536, 562, 1102, 1217)), (22, 3, 0, 20, (727, 739, 914, 1123, 1375)), (22, 0, 0, 0, (20, 21, 50, 53, 64, 84, 1657)), (22, 0, 1, 0, (3302,)), (22, 3, 0, 0, (5451,)),
    (22, 3, 0, 10, (2457,)), (25, 2, 0, 0, (1934, 19, 38)), (25, 0, 0, 20, (246, 668, 782, 943)), (26, 0, 0, 0, (125,)), (26, 0, 0, 10, (24, 36))) for i in ns]
TELLING += ["kind=22 n0=2643 op=0 rule=0 eps=6"]
TELLING_POS = [f"kind=22 n0={i} eps={e}" for e, ns in ((10, (209, 1222, 1620, 1964)), (14, (1143, 1467)))for i in ns]


DRAWN = ("; generated drawings: one to five contours of 2-20 edges with lattice corners in general directions (some with curved edges), each fixed up to a translation, which is symbolic in [-8, 8]^2, "
         "the set judged at a 33 x 33 lattice away from the input edges")
CURVED = ["curved-set-semantics", "curved-output-winds-0-or-1", "curved-output-on-the-input"]


def also(f, g):
    return lambda t: f(t) + g(t)


def tier(quick, thorough_extra, qs, ts):
    """families by tier: the thorough tier runs both lists, longer"""
    return lambda t: (quick(qs) if t == "quick" else quick(ts) + thorough_extra(ts))

PIPE = ["binary_op_with_eps", "Topology::from_paths_binary / build / merge_coincident / contours / compute_positions",
        "Segments::add_path / monotonic pieces", "sweep line (Sweeper, SweepLine, range events, SegmentOrder)",
        "ComparisonCache, CurveOrder", "kurbo and polycool (transformed along)"]
POLY = ("coordinates: every integer in [-4096, 4096] (symbolic, independent), and stamps of fixed size at symbolic integer positions; "
        "1-3 contours, 3-8 vertices each, edges horizontal, vertical or at 45 degrees; one stamp (also of slopes 2, 1/2, 4, 8 and others) at a symbolic position within [-70, 70]^2 on 16 concrete "
        "backgrounds of up to 9 polygons; families listed as exhausted cover every path class, "
        "the others the number of path classes reported; outside: general slopes, curves, larger coordinates, more contours")


def c01(s):
    return fams("e2e", "boolop", [f"shapes=21 op={o} contract=1" for o in range(4)] + [
        "shapes=11 op=1 contract=1 rev=1 style=1", "shapes=11 op=3 contract=1 rev=2 style=2 rot=21",
        "shapes=11 op=2 seed=7",
        "shapes=61 k=4 op=3 contract=1", "shapes=71 k=4 op=1 contract=1", "shapes=91 k=4 op=2 contract=1",
        "shapes=56 k=4 op=0 contract=1", "shapes=57 k=4 op=3 contract=1", "shapes=88 k=4 op=2 contract=1", "shapes=58 k=4 op=1 contract=1",
        "shapes=22 op=0 contract=1 seed=3", "shapes=31 op=3 contract=1 seed=5",
        "shapes=111 sets=4 op=0 contract=1 seed=6",
        on(1, 5, "bgset=1 sets=0 op=3", 1), on(1, 8, "bgset=0 sets=1 op=2 rev=1"), on(2, 1, "sets=1 op=0 style=1", 1), on(3, 3, "bgset=1 sets=0 op=2", 1),
        on(3, 7, "sets=1 op=3 rot=1", 2), on(4, 9, "sets=1 op=1 rule=1"), on(5, 6, "bgset=1 sets=0 op=0 rot=2", 1), on(6, 8, "sets=1 op=2 style=2", 1),
        on(7, 2, "sets=1 op=3 rule=1 rev=1", 1), on(8, 5, "sets=1 op=2", 1), on(9, 6, "bgset=1 sets=0 op=2 rot=1"), on(13, 9, "sets=1 op=1"),
        on(15, 3, "sets=1 op=0", 2), on(16, 5, "bgset=1 sets=0 op=3 rev=1", 1), on(10, 9, "sets=1 op=2 seed=2", 1), on(12, 1, "bgset=1 sets=0 op=1 seed=3", 2),
    ], s)


P("C01", "Boolean operations on polygons compute the set operation",
  "For two sets of closed polygons, the union, intersection, difference and exclusive-or that the library returns describe exactly the points "
  "obtained by applying that operation, point by point, to the two filled sets. This holds whatever the relative position of the polygons "
  "(crossing, nested, disjoint, sharing corners or parts of edges), their orientation, their starting vertex, and however the contours are closed.",
  ["inputs"],
  "all placements of one to three contours with integer coordinates and edges that are horizontal, vertical or diagonal; generated polygons with edges in general directions; all four operations",
  "The tests sample a handful of concrete drawings and compare snapshots; degenerate coincidences (shared edges, touching corners, equal heights) "
  "number in the thousands even for two rectangles, and no test states the point-set meaning of the result.",
  ["src/lib.rs", "src/topology.rs", "src/sweep/sweep_line.rs", "src/sweep/range.rs", "src/segments.rs"],
  [("binary_op_with_eps", "src/lib.rs"), ("Topology::build", "src/topology.rs"), ("sweep line", "src/sweep/sweep_line.rs")],
  PIPE, POLY + DRAWN, also(tier(c01, lambda s: fams("e2e", "boolop", [
      "shapes=22 op=1 contract=1 seed=13", "shapes=22 op=3 contract=1 seed=14", "shapes=32 op=2 contract=1 seed=15", "shapes=81 k=4 op=3 contract=1",
      "shapes=555 sets=4 k=4 op=2 contract=1 seed=16", "shapes=121 sets=4 op=1 contract=1 seed=17", "shapes=11 op=0 seed=8", "shapes=51 op=3 k=4 seed=9"], s)
      + grid("e2e", "boolop", 96, 101, 30, lambda r: f"op={r.randrange(4)} rule={r.randrange(2)}"), 12, 60),
      lambda t: drawn(t, 1, (20, 21, 23, 24), {24: 8}, reps=(2, 24))),
  only=["set-semantics", "edge-direction", "output-is-straight", "contour-is-one-closed-subpath"] + CURVED, assumes=[CONTRACT])


def c02(s):
    return fams("e2e", "boolop", [
        "shapes=2 sets=0 rule=0 op=0", "shapes=2 sets=0 rule=1 op=0", "shapes=3 sets=0 rule=1 op=0 contract=1", "shapes=3 sets=0 rule=0 op=0 contract=1",
        "shapes=11 sets=0 rule=0 op=0 contract=1", "shapes=11 sets=0 rule=1 op=2 contract=1", "shapes=11 sets=0 rev=1 rule=1 op=3 contract=1",
        "shapes=11 sets=0 rev=1 rule=0 op=3 contract=1",
        "shapes=22 sets=0 rule=1 op=0 contract=1 seed=3", "shapes=22 sets=0 rule=0 op=0 contract=1 seed=4",
        "shapes=88 sets=0 k=4 rule=1 op=0 contract=1", "shapes=88 sets=0 k=4 rule=0 rev=1 op=0 contract=1",
        "shapes=56 sets=0 k=4 rule=1 rev=1 contract=1", "shapes=55 sets=0 k=4 rule=0 contract=1", "shapes=55 sets=3 k=4 rule=1 rev=2 op=2 contract=1",
        "shapes=111 sets=0 rule=1 rev=2 contract=1 seed=5", "shapes=111 sets=4 rule=1 rev=4 op=3 contract=1 seed=6",
        "shapes=111 sets=0 rule=0 rev=0 contract=1 seed=7",
        on(1, 5, "sets=0 rule=0", 1), on(1, 8, "sets=0 rule=1 rev=1"), on(1, 7, "sets=0 rule=1", 1), on(2, 2, "sets=0 rule=0 rev=1 rot=1", 1), on(2, 7, "sets=0 rule=1 op=3", 1),
        on(5, 8, "sets=0 rule=1 style=2"), on(6, 6, "sets=0 rule=1 rev=1", 1), on(8, 9, "sets=0 rule=0", 1), on(14, 8, "sets=0 rule=0 op=2 rot=1", 1), on(14, 3, "sets=0 rule=1 op=3", 1),
        on(16, 5, "sets=0 rule=1 rev=1", 1), on(11, 5, "sets=0 rule=0 seed=4", 1), on(12, 7, "sets=0 rule=1 seed=5", 2), on(1, 5, "sets=0 rule=0 seed=6", 2), on(1, 5, "sets=0 rule=1 rev=1 seed=7", 2),
    ], s)


P("C02", "Fill rules interpret overlap and orientation",
  "A set of closed polygons that overlap or cross themselves is filled as its fill rule says: with the even-odd rule a point is inside when the "
  "contours wind around it an odd number of times, with the non-zero rule when they wind around it a non-zero number of times, contours of opposite "
  "orientation cancelling. The boolean operations are applied to the point sets so obtained, and a set with no contours is empty.",
  ["inputs", "configurations"],
  "self-overlapping and mutually overlapping polygons (including bow ties, doubled-back and coincident edges) in either orientation, both fill rules",
  "The tests use simple non-overlapping shapes with one rule each; multiplicities above one, cancellation, and coincident opposite edges are not sampled.",
  ["src/lib.rs", "src/topology.rs", "src/segments.rs"],
  [("FillRule evaluation", "src/lib.rs"), ("winding update along the sweep", "src/topology.rs"), ("positively_oriented", "src/segments.rs")],
  PIPE, POLY + DRAWN, also(tier(c02, lambda s: fams("e2e", "boolop", [
      "shapes=4 sets=0 rule=1 contract=1 seed=11", "shapes=4 sets=0 rule=0 contract=1 seed=12", "shapes=32 sets=0 rule=1 contract=1 seed=13",
      "shapes=888 sets=0 k=4 rule=1 rev=2 contract=1 seed=14", "shapes=1111 sets=0 rule=1 rev=5 contract=1 seed=15"], s)
      + grid("e2e", "boolop", 96, 102, 30, lambda r: f"op={r.choice([0, 0, 2, 3])} rule={r.randrange(2)}"), 12, 60),
      lambda t: drawn(t, 2, (20, 21, 23, 24, 22), {24: 8, 22: 4}, reps=(2, 24))),
  only=["set-semantics", "edge-direction", "output-is-straight", "contour-is-one-closed-subpath"] + CURVED, assumes=[CONTRACT])


def c05(s):
    return fams("e2e", "boolop", [
        "shapes=21 op=2 contract=1", "shapes=21 op=3 contract=1", "shapes=2 sets=0 rule=0", "shapes=3 sets=0 rule=0 op=0 contract=1",
        "shapes=11 rev=1 op=0 contract=1", "shapes=11 op=3 contract=1",
        "shapes=22 op=2 contract=1 seed=3", "shapes=22 op=0 contract=1 seed=4", "shapes=31 op=3 contract=1 seed=5",
        "shapes=88 k=4 op=2 contract=1", "shapes=57 k=4 op=3 contract=1", "shapes=55 k=4 op=2 contract=1", "shapes=81 k=4 op=0 contract=1", "shapes=71 k=4 op=3 contract=1",
        "shapes=111 sets=4 op=2 contract=1 seed=6", "shapes=111 sets=0 rule=0 contract=1 seed=7", "shapes=111 sets=2 op=3 contract=1 seed=8",
        on(8, 5, "sets=1 op=3", 1), on(8, 4, "sets=0 rule=1 rev=1", 1), on(1, 6, "bgset=1 sets=0 rule=0 op=3", 1), on(2, 1, "sets=0 rule=0 rev=1", 1), on(3, 9, "sets=1 op=2", 1),
        on(4, 7, "sets=1 op=3", 2), on(5, 5, "sets=1 op=0"), on(7, 3, "sets=1 op=3", 1), on(9, 7, "bgset=1 sets=0 op=3"), on(14, 9, "sets=0 rule=0", 1), on(15, 9, "sets=1 op=3", 1),
        on(16, 5, "sets=0 rule=0", 1), on(10, 4, "bgset=1 sets=0 op=3 seed=2", 1), on(13, 2, "sets=1 op=2 seed=3", 2), on(6, 5, "sets=1 op=3 seed=4", 1), on(9, 1, "sets=0 rule=0 op=2 rev=1 seed=5", 2),
    ], s)


C05L = ["output-winds-0-or-1", "outer-contour-winds-once", "inner-contour-winds-once-backwards", "root-contour-is-outer", "parent-exists",
        "child-alternates", "child-inside-parent", "siblings-disjoint", "contour-has-no-repeated-point", "island-shares-at-most-one-point-with-its-hole", "hole-shares-at-most-one-point-with-its-outer",
        "contour-does-not-touch-itself-between-corners", "contour-encloses-area", "boundary-segments-distinct", "grouped-is-the-containment-partition", "contour-is-one-closed-subpath", "edge-direction",
        "output-is-straight"]
P("C05", "Returned contours are closed, simple, consistently oriented and nested",
  "Every returned contour is one closed path that encloses area, visits no point twice and shares no boundary segment with another contour; outer "
  "contours wind one way around their interior and holes the other way. The recorded parent of a contour encloses it and has the opposite kind, contours "
  "with the same parent do not overlap, a hole or island shares at most one point with its parent, and contours without a parent are outer. Grouping the "
  "contours yields each root first, followed by exactly its descendants.",
  ["inputs"],
  "the outputs of boolean operations on one to three polygons in every relative position (integer coordinates; horizontal, vertical and diagonal edges), and on generated polygonal and curved drawings at every position in a square",
  "Snapshots fix the contours of about ten drawings; the structural rules must survive every coincidence of corners and edges.",
  ["src/topology.rs", "src/lib.rs"],
  [("contours, parent search and splitting at repeated points", "src/topology.rs"), ("Contours::grouped", "src/topology.rs"), ("merge_coincident", "src/topology.rs")],
  PIPE + ["Contours::grouped"], POLY + DRAWN, also(tier(c05, lambda s: fams("e2e", "boolop", [
      "shapes=121 sets=4 op=2 contract=1 seed=11", "shapes=1111 sets=10 op=2 contract=1 seed=12", "shapes=4 sets=0 rule=0 contract=1 seed=13",
      "shapes=555 k=4 sets=4 op=2 contract=1 seed=14", "shapes=32 op=3 contract=1 seed=15"], s)
      + grid("e2e", "boolop", 96, 105, 30, lambda r: f"op={r.choice([0, 2, 3, 3])} rule={r.randrange(2)}"), 12, 60),
      lambda t: drawn(t, 5, (20, 21, 23, 24, 22, 25), {24: 8, 22: 4, 25: 4}, reps=(2, 24)) + scattered(t, 50, 3, telling=TELLING)),
  only=C05L, assumes=[CONTRACT])


def c04(s):
    return fams("topo", "binary", [
        "shapes=11 contract=1", "shapes=11 rev=2 rot=31 style=1 contract=1", "shapes=21 contract=1", "shapes=22 contract=1 seed=3", "shapes=88 k=4 contract=1", "shapes=57 k=4 rev=1 contract=1",
        "shapes=91 k=4 contract=1", "shapes=111 sets=4 contract=1 seed=4", on(1, 5, "sets=1", 1), on(2, 8, "sets=0 rev=1"), on(5, 6, "bgset=1 sets=0", 1), on(14, 3, "sets=1 rev=1", 1),
        on(9, 9, "sets=0 rev=1"), on(16, 1, "sets=1", 1), on(12, 4, "sets=1 seed=2", 2), on(11, 5, "sets=0 seed=3", 1)], s) + fams("topo", "tagged", [
        "shapes=11 contract=1", "shapes=111 contract=1 seed=5", "shapes=555 k=4 contract=1 seed=6", "shapes=1111 contract=1 rev=5 seed=7"], s) + fams("topo", "single", [
        "shapes=2 sets=0 bbox=1", "shapes=3 sets=0 contract=1", "shapes=11 sets=0 contract=1 bbox=1", "shapes=88 sets=0 k=4 rev=1 contract=1 bbox=1"], s) + fams("topo", "polylines", [
        "shapes=2 sets=0", "shapes=22 contract=1 seed=8", "shapes=57 k=4 contract=1"], s) + fams("curves", "bounds", [
        f"kind={k} n={n} n0={n0} move=1" + (" lim=2" if k > 19 else "") for k, n, n0 in ((0, 5, 0), (1, 5, 0), (3, 3, 0), (8, 5, 0), (20, 20, 40), (22, 30, 200), (25, 30, 64), (26, 30, 64))], s)


C04L = ["halves-in-sweep-order", "segment-not-a-point", "halves-mirror", "both-sides-differ", "winding-clockwise-side", "winding-counter-clockwise-side",
        "coincident-segments-merged", "windings-add-up", "bounding-box-contains", "bounding-box-tight", "moved-with-the-input", "segment-direction"]
P("C04", "The computed subdivision records true winding numbers on both sides",
  "For every segment of the planar subdivision computed from a set of closed polygons, the winding numbers recorded on its two sides are the numbers of times "
  "each input set winds around the points there, for any number of independently tagged sets; the two sides always differ, opposite halves mirror each other, and "
  "crossing all recorded segments to the west of a point accounts for its whole winding number. Coincident pieces appear once, no piece is a single point, and the reported "
  "bounding box is the exact bounding box of the input, whose edges may also be curves.",
  ["inputs", "configurations"],
  "polygons with integer coordinates and horizontal, vertical or diagonal edges in every relative position; paths and polylines; one, two and up to four tagged sets",
  "Tests snapshot the subdivision of a few drawings and check the boolean results on them; multiplicities, cancellation and shared edges vary over all relative positions.",
  ["src/topology.rs", "src/segments.rs", "src/sweep/sweep_line.rs"],
  [("update_from_section / winding propagation", "src/topology.rs"), ("merge_coincident, delete degenerate segments", "src/topology.rs"), ("WindingNumber", "src/topology.rs")],
  ["Topology::{from_path, from_paths, from_paths_binary, from_polylines_binary, bounding_box, point, winding_clockwise, winding_counter_clockwise}"] + PIPE[2:], POLY,
  tier(c04, lambda s: fams("topo", "tagged", ["shapes=121 contract=1 seed=11", "shapes=585 k=4 contract=1 seed=12"], s) + fams("topo", "binary", ["shapes=32 contract=1 seed=13", "shapes=22 seed=14"], s)
       + fams("topo", "polylines", ["shapes=31 contract=1 seed=15"], s) + grid("topo", "binary", 96, 104, 30), 10, 60),
  only=C04L, assumes=[CONTRACT, "polylines have no two equal consecutive points"])

C09B = ("orders of n intervals (n = 3, 4, 5 pushes) with symbolic integer heights in [-64, 64] and every combination of the three relations, symbolic query heights and "
        "slops up to 6; all path classes explored; outside: more intervals, heights that are not on the grid")


def c09(t):
    n = [3, 4] if t == "quick" else [3, 4, 5, 6]
    return [j for k in n for h in ("push", "queries", "slop", "touch") for j in fams("order", h, [f"n={k}"], 20 if t == "quick" else 200)]


P("C09", "The relation of two curves by height is a consistent partition",
  "The left/close/right relation recorded for two curves covers their common height range without gaps or overlaps, in increasing height, and passes from left to right "
  "or back only through a close region; swapping the curves mirrors it. Queries at a height report the relation that was recorded there, the next definite relation, or the "
  "height of the next touch or crossing; widening close regions by a vertical slop marks exactly the heights within the slop of a close or opposite region.",
  ["inputs", "histories"],
  "every sequence of up to six recorded relations with any heights, and every query height and slop",
  "The tests build a few fixed relations; boundary heights, zero-height regions and slops larger than a region are combinations no test enumerates.",
  ["src/curve/mod.rs"], [("CurveOrder::push, flip, with_y_slop, next_touch_after, order_at, entry_at, order_after", "src/curve/mod.rs")],
  ["CurveOrder::{new, push, flip, iter, order_at, entry_at, order_after, next_touch_after, with_y_slop, check_invariants}"], C09B, c09)

P("C13", "Ordering of floating-point numbers is total and agrees with comparison",
  "The ordering used for keys agrees with numeric comparison on all pairs of non-NaN numbers, including infinities and both zeros, and is antisymmetric.",
  ["inputs"], "all pairs of 64-bit non-NaN floating-point values",
  "The 2^128 pairs cannot be sampled meaningfully; no test mentions signed zeros or infinities.",
  ["src/num.rs"], [("CheapOrderedFloat", "src/num.rs")], ["CheapOrderedFloat::{from, cmp, partial_cmp, eq}"],
  "bit-precise, every pair of non-NaN f64 values, no bound on magnitude; nothing outside", lambda t: [], kani=lambda t: ["ord_float"],
  technique="bit-precise bounded model checking of the compiled code with Kani/CBMC (SAT), counterexamples replayed natively")


def c08(s):
    return fams("sweep", "lines", [
        "shapes=11 contract=1", "shapes=21 contract=1", "shapes=2 sets=0", "shapes=56 k=4 contract=1", "shapes=57 k=4 contract=1", "shapes=88 k=4 contract=1",
        "shapes=22 contract=1 seed=3", "shapes=111 contract=1 seed=4", "open=12", "open=34 k=4 contract=1", "open=123 k=4 contract=1", "open=12 near=8", "open=34 k=4 near=8 contract=1",
        "open=112 near=8 contract=1 seed=5", "shapes=11 near=8 contract=1 seed=6", "shapes=22 poly=1 contract=1 seed=7",
        on(1, 6, "rot=1", 1), on(5, 8, "rev=1"), on(8, 8, "rev=1 rot=2"), on(9, 5, "", 1), on(3, 1, "rot=2", 1), on(13, 2, "rev=1", 1), on(16, 7, "", 2), on(10, 5, "seed=2", 1), on(12, 9, "seed=3", 1)], s)


P("C08", "The sweep visits every segment in order and reports all meetings",
  "Sweeping a set of segments from the top downwards always finishes and visits every segment from its first point to its last as an unbroken chain of pieces, at strictly increasing "
  "heights, and lists the segments crossing each height from left to right up to the tolerance. Segments that meet at a point are all subdivided there and stay in the order in which they "
  "continue, each piece lies on its segment within the tolerance, and nothing is left open at the end.",
  ["inputs"],
  "closed polygons and independent segments (vertical, horizontal, diagonal) at integer positions, and at positions a fraction of the tolerance apart; generated drawings with curved edges at every position of a square",
  "The sweep is only tested through snapshots of a few drawings; simultaneous events at one height and near-coincidences within the tolerance come in thousands of arrangements.",
  ["src/sweep/sweep_line.rs", "src/sweep/range.rs", "src/sweep/mod.rs", "src/segments.rs"],
  [("Sweeper::next_line, handle_enter, handle_exit, intersection scan", "src/sweep/sweep_line.rs"), ("SweepLineRange events and reordering", "src/sweep/range.rs")],
  ["Sweeper::{new, next_line, handle_event, intersect_with_deltas, scan_left, scan_right, compute_horizontal_changed_intervals}", "SweepLine::next_range, SweepLineRange::{events, increase_x, segment_range, old_segment_range, update_segments_at_x}",
   "sweep()", "SegmentOrder (TreeVec)", "Segments::{entrances, exits}", "ComparisonCache, CurveOrder, intersect_cubics (families without contract=1)"],
  POLY + "; near families add an independent multiple of eps/4 in [-2 eps, 2 eps] to every coordinate", tier(c08, lambda s: fams("sweep", "lines", [
      "open=1134 k=4 contract=1 seed=11", "open=3344 k=4 contract=1 seed=12", "open=334 near=8 k=4 contract=1 seed=13", "shapes=55 near=8 k=4 contract=1 seed=14", "shapes=31 contract=1 seed=15", "open=1222 near=8 contract=1 seed=16"], s)
      + grid("sweep", "lines", 96, 108, 30), 11, 60),
  assumes=[CONTRACT])
PROPS["C08"]["jobs"] = also(PROPS["C08"]["jobs"], lambda t: scattered(t, 80, 4, harness="sweeps", kinds=(20, 22, 24, 25, 26, 27), eps=(0, 6, 8, 10, 20), telling=["kind=22 n0=2643 eps=6", "kind=22 n0=1500 eps=6"]))


def c03(t):
    return fams("store", "reject", [f"which={w}" for w in (range(4) if t == "quick" else (0, 1, 2, 3))] + ([] if t == "quick" else ["which=0 span=8", "which=1 span=4"]), 32 if t == "quick" else 200) + \
        fams("store", "open", [f"sub={k} seed={k + 1}" for k in range(4)], 24 if t == "quick" else 200) + \
        fams("store", "paths", ["mode=1 n=4", "mode=2 n=4", "mode=3 n=4", "mode=33 n=3", "mode=13 n=3", "mode=23 n=2"], 20 if t == "quick" else 200)


P("C03", "Invalid input is rejected with the matching error, valid input is accepted",
  "A boolean operation whose input has a NaN coordinate anywhere returns the NaN error, one with an infinite coordinate returns the infinity error, and one with a "
  "subpath that does not end where it began returns the error for open paths, naming the two ends. Every other input is accepted; none of this panics.",
  ["inputs", "faults"],
  "every coordinate of every point (line ends, curve ends and control points) of several subpaths in either set replaced by NaN or an infinity; subpaths ending at any integer point",
  "No test passes a NaN, an infinity or an open path to the boolean operations.",
  ["src/lib.rs", "src/segments.rs"], [("binary_op input checks", "src/lib.rs"), ("closedness check", "src/segments.rs")],
  ["binary_op", "Topology::from_paths_binary", "Segments::add_bez_path"] + PIPE[2:],
  "one bad coordinate at each of the 16-32 coordinates of two to four subpaths (lines, a quadratic, a cubic), three bad values; open ends at every integer point of [-3, 3]^2 and, on the "
  "arena, chains of up to four points in [-3, 3]^2; outside: two faults at once, huge finite values", c03,
  only=["bad-coordinates-are-rejected", "nan-error-only-for-nan", "infinity-error-only-for-infinity", "no-other-error", "open-paths-are-rejected", "the-open-ends-are-named",
        "closed-iff-ends-meet", "open-ends-reported"])


def c12(t):
    q = ["ops b=4 n=0 ops=5", "ops b=4 n=4 ops=3", "ops b=4 n=9 ops=2", "ops b=4 n=12 ops=2 del=3", "ops b=4 n=21 ops=2 del=5 at=2", "ops b=4 n=33 ops=1", "ops b=4 n=20 ops=2 front=11", "ops b=4 n=40 ops=2 del=20 at=7",
         "ops b=5 n=14 ops=2 del=4", "ops b=6 n=24 ops=2 del=9 at=4", "ops b=8 n=30 ops=2 del=11", "ops b=4 n=17 ops=3 del=8 at=9",
         "ranges b=4 n=0", "ranges b=4 n=5", "ranges b=4 n=13", "ranges b=4 n=22 del=6", "ranges b=5 n=19", "ranges b=8 n=20", "find b=4 n=4", "find b=4 n=17 del=3", "find b=4 n=30 del=9", "find b=6 n=24", "change b=4 n=9", "change b=5 n=11"]
    th = ["ops b=4 n=10 ops=4", "ops b=4 n=0 ops=7", "ops b=4 n=66 ops=2 del=20 at=30", "ops b=4 n=40 ops=3 del=20 at=7", "ops b=6 n=60 ops=2", "ops b=8 n=80 ops=2 del=9", "ranges b=4 n=40 del=9", "find b=4 n=60 del=9", "change b=4 n=16"]
    q = [x for x in q] + (th if t != "quick" else [])
    return [j for x in q for j in fams("store", x.split()[0], [x.split(" ", 1)[1]], 15 if t == "quick" else 250)]


P("C12", "The balanced sequence container behaves like a plain sequence",
  "After any sequence of insertions and removals by position, the tree container holds exactly the elements of a plain sequence with the same history, in the same order, as "
  "seen by its length, indexing in and out of range, iteration, sub-ranges, and mutable iteration; its nodes stay within their fill limits. Binary search returns a position where "
  "the predicate changes from true to false, for sorted keys the unique one.",
  ["histories", "inputs"],
  "histories of up to seven operations at any position from an empty tree, and up to four from trees of up to 66 elements and three levels; all sub-ranges; sorted keys and arbitrary predicates; node widths 4, 5, 6 and 8",
  "The tests draw random histories with shallow trees; splits, merges and rebalancing at every position of every level are not systematically reached.",
  ["src/treevec.rs"], [("insert with split, remove with merge and rebalance", "src/treevec.rs"), ("iterators, ranges, partition_point", "src/treevec.rs")],
  ["TreeVec::{from_iter, insert, remove, get, get_mut, len, is_empty, iter, iter_mut, range, range_mut, partition_point, check_invariants}"],
  "see quantifier; positions and predicates are solver variables whose every value is explored (families exhausted), keys are integers in [-50, 50]; outside: deeper trees, the width used in production (128; the code is generic in it)", c12,
  only=[])


def c15(t):
    q = ["polylines mode=1 n=3", "polylines mode=2 n=3", "polylines mode=2 n=4", "polylines mode=3 n=2", "polylines mode=12 n=2", "polylines mode=35214 n=2", "polylines mode=62 n=2", "polylines mode=1 n=5 lim=2",
         "paths mode=1 n=4", "paths mode=2 n=4", "paths mode=12 n=2", "paths mode=21 n=3 seed=2", "paths mode=3 n=4 must=0", "paths mode=31 n=2 must=0", "paths mode=33 n=3 must=0 seed=3", "paths mode=132 n=2 must=0 seed=4"]
    return [j for x in q for j in fams("store", x.split()[0], [x.split(" ", 1)[1]], 15 if t == "quick" else 250)]


P("C15", "The segment arena preserves the input geometry, direction and connectivity",
  "Adding polylines and paths stores exactly their edges (of a path, those that are not single points), each from its upper to its lower end with a flag that recovers the original "
  "direction. Following the successor links walks each contour in its original order, back to the start if it is closed and to nothing if it is open, and the predecessor links are their inverse. Each segment is "
  "scheduled to enter exactly once, at its upper end, and to leave exactly once, at its lower end, unless it is horizontal; both schedules are sorted by height.",
  ["inputs", "histories"],
  "one to five open or closed polylines or subpaths of two to five vertices at integer positions, including repeated points, closed in every way",
  "Tests only read a few drawings through the arena; open paths, repeated points and mixtures of calls are not tested.",
  ["src/segments.rs"], [("add_points, add_closed_polylines, add_bez_path, add_non_closed_bez_path, update_enter_exit", "src/segments.rs")],
  ["Segments::{add_points, add_closed_polyline, add_closed_polylines, add_bez_path, add_non_closed_bez_path, oriented_start, oriented_end, contour_next, contour_prev, positively_oriented, entrances, exits, indices, segments, len}", "kurbo::segments"],
  "vertices at every integer point of [-3, 3]^2 (symbolic), 2-5 per chain, up to 5 chains; outside: curved segments (their pieces are property C16), more vertices", c15,
  only=["number-of-segments", "original-ends", "stored-in-sweep-order", "orientation-flag", "next-in-contour", "previous-in-contour", "every-segment-enters-once", "entrance-heights", "entrances-by-height",
        "exits-by-height", "every-sloping-segment-exits-once", "exit-heights", "open-paths-accepted"])


def c06(s):
    return fams("e2e", "boolop", [f"near=8 vm=4 contract=1 {x}" for x in (
        "shapes=11 op=0 seed=1", "shapes=11 op=1 rev=1 seed=2", "shapes=11 op=2 seed=3", "shapes=11 op=3 rev=2 seed=4", "shapes=2 sets=0 rule=0", "shapes=22 op=3 seed=3", "shapes=21 op=2 seed=4",
        "shapes=88 k=4 op=3 seed=5", "shapes=55 k=4 op=1 seed=6", "shapes=56 k=4 op=2 seed=7", "shapes=57 k=4 op=0 seed=8", "shapes=111 sets=4 op=2 seed=9", "shapes=111 sets=0 rule=1 rev=2 seed=10")] + [
        on(1, 5, "bgset=1 sets=0 op=3 near=8 vm=4 seed=2", 1), on(5, 6, "bgset=1 sets=0 op=0 near=8 vm=4 seed=3", 1), on(14, 3, "sets=0 rule=1 op=3 near=8 vm=4 seed=4", 1),
        on(8, 5, "sets=1 op=2 near=8 vm=4 seed=5"), on(15, 8, "sets=1 op=3 near=8 vm=4 seed=6"), on(16, 9, "sets=1 op=0 near=8 vm=4 seed=7"), on(9, 5, "sets=1 op=3 near=8 vm=4 seed=8", 1)], s)


P("C06", "Nearly coincident polygons still give the right sets",
  "When corners and edges of the input lie within a few tolerances of each other without coinciding, a boolean operation still returns a representation of the set operation: every "
  "point farther than a small multiple of the tolerance from all input edges is inside the result exactly if it should be. The returned contours wind around every such point at most once, and their "
  "corners lie within a few tolerances of an input edge.",
  ["inputs"],
  "polygons with integer coordinates each displaced by an independent multiple of a quarter of the tolerance, up to twice the tolerance",
  "Near-coincidences at the scale of the tolerance decide which of the sweep's branches run; the tests contain a few of them, and the fuzzer's asserts do not look at the result.",
  ["src/lib.rs", "src/topology.rs", "src/sweep/sweep_line.rs", "src/sweep/range.rs", "src/order.rs"],
  [("comparison with tolerance", "src/order.rs"), ("sweep line order repair", "src/sweep/sweep_line.rs"), ("coincident segment merging", "src/topology.rs")],
  PIPE, POLY + "; tolerance 2^-20; every coordinate (of a stamp: its position) is an integer plus k * tolerance / 4 with -8 <= k <= 8, all k; few families exhaust",
  tier(c06, lambda s: grid("e2e", "boolop", 64, 106, 30, lambda r: f"near=8 vm=4 op={r.randrange(4)} rule={r.randrange(2)}"), 14, 90),
  only=["set-semantics", "edge-direction", "output-is-straight", "contour-is-one-closed-subpath", "output-winds-0-or-1", "outer-contour-winds-once", "inner-contour-winds-once-backwards",
        "output-vertex-on-an-input-edge", "root-contour-is-outer", "parent-exists", "child-alternates", "siblings-disjoint", "child-inside-parent"], assumes=[CONTRACT])


def c07(t):
    import random
    r = random.Random(7)
    out = [f"draw={d} op={(d + 3) % 4} rule={d % 2}" for d in range(12)] + [f"draw={d} op={(d + 1) % 4} swap=1 rule={(d + 1) % 2} eps=20" for d in range(12)]
    if t != "quick":
        out += [f"draw={d} op={o} rule={ru} swap={sw}" for d in range(12) for o in range(4) for ru in range(2) for sw in range(2)]
        out += [f"draw={d} op=3 eps={e}" for d in range(12) for e in (8, 12, 16, 24)]
        out += [f"kind={k} n=6 n0={i} eps=20 op={(k + i) % 4} rule={i // 6 % 2} both={i // 12 % 2} swap={i // 24 % 2}" for k in (0, 1, 2, 5, 6, 7, 8, 9, 10, 12, 13, 14) for i in range(600, 744, 6)]
        out += [f"kind={k} n=2 n0={i} eps=20 op={(k + i) % 4} both={i // 2 % 2}" for k in (3, 4, 11) for i in range(600, 632, 2)]
    for k in range(15):
        n = 1 if k in (3, 4, 11) else 5
        out += [f"kind={k} n={n} eps=20 op={k % 4} rule={k % 2}", f"kind={k} n={n} n0=100 eps=20 op={(k + 1) % 4} rule={(k + 1) % 2} both=1"]
    reps = 1 if t == "quick" else 20
    for i in range(reps):
        out += [f"kind={k} n={n} n0={2000 + 100 * i} eps={e} close=1 op={(k + e + i) % 4} both={i % 2}" for k, n, es in ((3, 2, (14,)), (11, 4, (10, 20)), (13, 3, (10, 14, 20)), (14, 3, (10, 14, 20))) for e in es]
    return fams("curves", "boolop", [f"move=1 {x}" for x in out], 30 if t == "quick" else 120) + drawn(t, 7, (22, 25), {22: 4, 25: 4}, reps=(2, 40)) + scattered(t, 70, 8, telling=TELLING)


P("C07", "Boolean operations on curved paths compute the set operation at any position",
  "For paths with quadratic and cubic edges, whatever their position in the plane, a boolean operation returns contours that enclose exactly the points of the set operation on the two filled "
  "paths, up to the stated accuracy: points away from the input boundary are wound around once if inside and not at all if outside. Every point of a returned contour lies within the "
  "accuracy of the input boundary, contours are closed, and moving the input moves the result by the same amount.",
  ["inputs", "configurations"],
  "twelve curved drawings (overlapping, tangent, self-crossing, nested, with shared and nearly parallel curves) hundreds bounded by two generated curves (see C10), and generated paths with line, quadratic and cubic edges, at every position in a square, all operations, both rules, both orders",
  "Curved tests are snapshots at one position and do not state the point-set meaning; rounding of heights differs at every position.",
  ["src/lib.rs", "src/topology.rs", "src/position.rs", "src/curve/mod.rs", "src/geom.rs"],
  [("intersect_cubics and EstParab", "src/curve/mod.rs"), ("monotonic pieces", "src/geom.rs"), ("compute_positions", "src/position.rs"), ("transversality", "src/curve/transverse.rs")],
  PIPE + ["EstParab, Quadratic, monic roots", "monotonic_pieces, force_monotonic, y_subsegment, solve_t_for_y", "transversal_after / before, quad_max_between", "compute_positions, ordered_curves_all_close"],
  "each drawing is fixed up to translation; the translation is symbolic in [-500, 500]^2 (integers), relative coordinates are doubles, and coefficients of the translation that are within 1e-11 of an integer are "
  "taken as that integer; families exhausted; accuracy 5e-5 plus 4 tolerances, the set is compared at the points of a 33 x 33 lattice in the drawing's frame farther than 4 accuracies from the boundary; outside: other shapes, symbolic relative placement", c07,
  only=CURVED + ["moved-with-the-input", "contour-is-one-closed-subpath"],
  assumes=["in families with move=1 the rounding errors of translated coordinates are not modelled (they are exercised only by the native replays of sampled positions)"])


def c18(t):
    import random
    r = random.Random(18)
    out = []
    for i in range(3 if t == "quick" else 30):
        for d in range(8):
            for k, ats in ((20, (24, 30, 36)), (22, (14, 30, 36)), (25, (24, 30, 36)), (26, (10, 30, 36))):
                for at in ats:
                    n = 4 if k == 20 else 6
                    n0 = r.randrange(80) * n
                    if (k, n0) in ((25, 342), (26, 288)):  # the recorded findings, listed below
                        continue
                    out.append(f"kind={k} n={n} n0={n0} at={at} dir={d} op={r.randrange(4)} rule={r.randrange(2)} swap={r.randrange(2)} alone={r.choice((0, 0, 1, 2))} move=1 lim=2")
    out += ["kind=25 n=1 n0=343 at=36 dir=1 alone=1 op=0 move=1 lim=0", "kind=26 n=1 n0=288 at=36 dir=1 alone=1 op=3 move=1 lim=0", "kind=26 n=1 n0=660 at=30 dir=3 op=1 move=1 lim=0"]
    return fams("curves", "boolop", out, 30 if t == "quick" else 100)


P("C18", "Far from the origin, results keep to the default accuracy",
  "When no accuracy is asked for, it is one millionth or, for coordinates above about 7e7, the largest magnitude of a coordinate of either set times 2^-46, whichever is larger. Boolean operations work "
  "for drawings far from the origin in any direction, whichever of the sets they are in: no point of the result is farther than that accuracy from the input boundary, the result is the set operation on the "
  "filled sets up to it, and the operation does not fail because rounding is coarser than it was at the origin.",
  ["inputs", "configurations"],
  "generated straight and curved drawings at distances 2^10 to 2^36 in eight directions, at every position in a small square there, all operations, both rules, in one of the sets or both",
  "The tests use drawings within a few hundred units of the origin, where rounding is far below the smallest accuracy.",
  ["src/lib.rs", "src/curve/mod.rs", "src/sweep/sweep_line.rs"], [("binary_op", "src/lib.rs"), ("intersect_cubics", "src/curve/mod.rs"), ("next_subsegment", "src/position.rs")],
  ["binary_op"] + PIPE + ["intersect_cubics, EstParab", "compute_positions"],
  "each drawing is fixed up to translation by a symbolic integer vector in [-2, 2]^2; the offset 2^at times a direction is added in doubles as the library sees it; the set is compared at the points of a 33 x 33 lattice in the drawing's frame farther than 4 accuracies from the boundary; "
  "outside: drawings larger than 1024, distances above 2^36, other offsets", c18,
  only=CURVED + ["moved-with-the-input", "contour-is-one-closed-subpath"],
  assumes=["the rounding errors caused by the symbolic part of the translation are not modelled, those caused by the offset are"])


def c11(t):
    out = [f"draw={d}" for d in range(12)] + [f"draw={d} eps=10 swap=1" for d in range(12)] + ["kind=22 n=1 n0=60120 eps=10 lim=5"]
    for k in range(15):
        n = 2 if k in (3, 4, 11) else 10
        out += [f"kind={k} n={n}", f"kind={k} n={n} n0=100 both=1 eps=14"]
    if t != "quick":
        out += [f"draw={d} eps={e}" for d in range(12) for e in (6, 8, 12, 16, 24)]
        out += [f"kind={k} n=20 n0={i} eps={(10, 14, 20)[i // 20 % 3]} both={i // 60 % 2}" for k in (0, 1, 2, 5, 6, 7, 8, 9, 10, 12, 13, 14) for i in range(1000, 1480, 20)]
        out += [f"kind={k} n=2 n0={i} both={i // 2 % 2}" for k in (3, 4, 11) for i in range(1000, 1040, 2)]
    reps = 1 if t == "quick" else 20
    for i in range(reps):
        out += [f"kind={k} n={n} n0={2000 + 100 * i} eps={e} close=1 both={i % 2}" for k, n, es in ((3, 2, (14,)), (11, 6, (10, 20)), (13, 4, (10, 14, 20)), (14, 4, (10, 14, 20))) for e in es]
    return fams("curves", "positions", [f"move=1 {x}" for x in out], 30 if t == "quick" else 120) + drawn(t, 11, (22, 25, 24), {22: 3, 25: 3, 24: 3}, "positions", reps=(2, 40)) + scattered(t, 110, 6, 6, "positions", eps=(0, 20, 14, 12), telling=TELLING_POS)


P("C11", "Laid-out curves keep their order and their ends",
  "The curves that the library lays out for the edges of the subdivision never cross one another: of two edges that share a range of heights, one is to the left throughout, up to rounding, even where the input curves are closer than the "
  "tolerance or cross within it. Each laid-out curve begins and ends exactly at the recorded end points of its edge and only goes down.",
  ["inputs", "configurations"],
  "curved and generated drawings (tangent, overlapping, coincident and nearly parallel curves, sharing ends, nearly horizontal) at every position in a square, several tolerances",
  "No test compares laid-out curves with each other, and what has to be perturbed depends on rounding and so on the position.",
  ["src/position.rs", "src/curve/transverse.rs", "src/topology.rs"], [("compute_positions, ordered_curves_all_close", "src/position.rs"), ("transversal_after, transversal_before", "src/curve/transverse.rs"), ("ScanLineOrder", "src/topology.rs")],
  ["compute_positions, ordered_curves_all_close, approximate, next_subsegment", "transversal_after / before, quad_max_between", "EstParab::from_cubic", "ScanLineOrder neighbours", "Topology::compute_positions, build_scan_line_orders"] + PIPE[1:],
  "twelve fixed drawings and those bounded by two curves of the families of C10, each at a symbolic integer position in [-500, 500]^2; orders compared at eight heights per piece of path, up to 1e-9; outside: other shapes, symbolic relative placement", c11,
  assumes=["in families with move=1 the rounding errors of translated coordinates are not modelled (they are exercised only by the native replays of sampled positions)"])


def c10(t):
    q = [f"kind={k} n={ {3: 6}.get(k, 48)} move=1" for k in range(15)] + ["kind=4 n=8 rel=1 move=1", "kind=0 n=24 n0=1000 tolexp=12 move=1", "kind=7 n=24 n0=1000 tolexp=28 move=1", "kind=2 n=24 n0=1000 tolexp=10 move=1"]
    if t != "quick":
        q += [f"kind={k} n=400 n0=2000 tolexp={e} move=1" for k in range(15) if k != 3 for e in (10, 16, 20, 26)] + [f"kind=3 n=8 n0={i} move=1" for i in range(100, 180, 8)] + ["kind=4 n=400 n0=500 rel=1 move=1"]
    return fams("pairs", "order", q, 30 if t == "quick" else 200) + fams("pairs", "cache", [f"kind={k} n={30 if t == 'quick' else 300} n0=5000 move=1" for k in (0, 1, 2, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14)], 30 if t == "quick" else 200)


P("C10", "Comparing two curves reports their true left-to-right relation",
  "Comparing two monotone curves, or lines, partitions exactly their common range of heights into regions labelled left, right or close. Where the label is left or right, the curves really are in that "
  "order at nearby heights and not much closer than the tolerance; where it is close, they come within about the tolerance of each other. Asking a comparison cache about the same pair the other way round gives the mirrored answer, and an allowance for heights only turns strict regions into close ones near where the order changes.",
  ["inputs"],
  "pairs of monotone cubics and lines (crossing, tangent, nearly parallel, nearly horizontal, sharing ends, S-shaped, straight) at every position in a square, and at every sideways distance; several tolerances",
  "The tests compare a few pairs; the numeric solver's branches depend on position through rounding, and no test states the meaning of the regions for generated pairs of every shape.",
  ["src/curve/mod.rs", "src/order.rs", "src/geom.rs"], [("intersect_cubics and its recursion", "src/curve/mod.rs"), ("EstParab, Quadratic signs", "src/curve/mod.rs"), ("ComparisonCache", "src/order.rs")],
  ["intersect_cubics, intersect_cubics_rec, with_rotation, EstParab, Quadratic::signs, push_quadratic_signs, monic roots", "CurveOrder", "ComparisonCache::compare_segments", "y_subsegment, solve_t_for_y"],
  "pairs are drawn from fifteen deterministic families of shapes (ids below), each at a symbolic integer position in [-500, 500]^2; two lines moving sideways relative to each other by any integer distance; "
  "heights are compared up to the tolerance; outside: other shapes, symbolic relative positions of curves", c10,
  assumes=["in families with move=1 the rounding errors of translated coordinates are not modelled (they are exercised only by the native replays of sampled positions)"])


def c16(t):
    q = [f"kind={k} n=100 move=1" for k in range(9)]
    if t != "quick":
        q += [f"kind={k} n=1000 n0={i} move=1" for k in range(9) for i in (1000, 2000, 3000)]
    return fams("geom", "pieces", q, 30 if t == "quick" else 200)


P("C16", "Curves are split into monotone pieces that stay on the curve and linked",
  "Splitting a cubic curve gives at most three pieces, each going only down or only up, that follow one another along the whole curve from its first point to its last, join exactly, and lie on the curve up to "
  "rounding; only pieces that are single points are left out. The pieces of a closed path's curves are stored as one closed chain in path order, each from its upper to its lower end, each entering and leaving the sweep once.",
  ["inputs"],
  "cubic curves with control points at every combination of horizontal coordinates, for hundreds of combinations of heights (arches, S-shapes, level ends, raised quadratics, almost monotone, closing on themselves)",
  "The tests sample random curves and check monotonicity only; linking of pieces, exact joining and the degenerate curves are not tested.",
  ["src/geom.rs", "src/segments.rs"], [("monotonic_pieces, force_monotonic", "src/geom.rs"), ("add_path_without_updating_enter_exit", "src/segments.rs")],
  ["monotonic_pieces", "force_monotonic", "monic_quadratic_roots", "Segments::add_bez_path, contour_next, contour_prev, oriented_start, oriented_end, entrances, exits, check_invariants", "kurbo::CubicBez::subsegment"],
  "control points' horizontal coordinates are independent solver variables, every integer in [-100, 100]; heights are concrete, from nine deterministic families; families exhausted; outside: symbolic heights", c16,
  assumes=["in families with move=1 coefficients are doubles and the rounding errors of the horizontal coordinates are not modelled (they are exercised only by the native replays of sampled curves)"])


def c17(t):
    q, n = (1, 1) if t == "quick" else (20, 10)
    return fams("geom", "segment", [f"kind={k} n={10 * n} move=1" for k in range(10)] + [f"kind=10 n={20 * n} line=1 move=1"], 30 if t == "quick" else 250) + \
        fams("geom", "bounds", [f"kind={k} n={200 * n} move=1" for k in range(15)], 30 if t == "quick" else 200)


P("C17", "A segment's position, bounds and parts agree with its curve",
  "The horizontal position reported for a segment at a height lies on its curve there, and is exactly the end point at the end heights. The bounds of a segment enclose it and are attained by its control points; its bounds near a height enclose "
  "everything within a given distance of that height, and are not much wider. The part of a curve between two heights starts and ends exactly at those heights and follows the curve.",
  ["inputs"],
  "monotone curves and lines with every combination of horizontal coordinates of their control points, and at every position in a square; sixteen heights and four distances each",
  "The tests evaluate a few curves; errors at the ends, near-horizontal ends and windows overlapping the ends are not sampled.",
  ["src/geom.rs", "src/curve/mod.rs"], [("Segment::at_y, lower, upper, min_x, max_x", "src/geom.rs"), ("y_subsegment, solve_t_for_y", "src/curve/mod.rs")],
  ["Segment::{straight, monotonic_cubic, from_kurbo_cubic, start, end, at_y, lower, upper, min_x, max_x, is_line, is_horizontal, to_kurbo_cubic, local_bbox}", "solve_t_for_y, y_subsegment", "kurbo bounding_box, extrema, subsegment"],
  "horizontal coordinates are independent solver variables, every integer in [-100, 100] (segment), or the position in [-500, 500]^2 is (bounds); the shapes of heights come from fifteen deterministic families; families exhausted; outside: symbolic heights", c17,
  assumes=["in families with move=1 coefficients are doubles and the rounding errors of the horizontal coordinates are not modelled (they are exercised only by the native replays of sampled curves)"])


def c14(t):
    m, s = (1, 30) if t == "quick" else (20, 250)
    return fams("pairs", "parabola", [f"kind={k} n={150 * m} move=1" for k in range(15)], s) + fams("pairs", "transversal", [f"kind={k} n={150 * m} move=1" for k in range(15)], s) + \
        nra(fams("quads", "signs", [f"kind={k} n={40 if t == 'quick' else 400}" for k in range(8)], s)) + fams("quads", "moved", [""], s) + \
        fams("quads", "monic", [f"e={e} f={f}" for e in (-500, -30, 0, 3, 500, 510, 511, 512, 600) for f in (-60, -4, -1, 0, 1, 5) if 2 * e + f < 1024], s)


P("C14", "Estimates made about curves are on the safe side",
  "The parabola that stands for a monotone curve, with its stated error bounds, encloses the curve at every height in its range and meets it at both ends, and the difference of two such estimates encloses the curves' "
  "distance. Two curves declared to separate above or below a common end are in that order throughout the stated range of heights. The roots and signs reported for a quadratic, and the regions where it lies below, between and above two thresholds, are its true ones at every height.",
  ["inputs"],
  "monotone cubics and lines of many shapes at every position in a square; quadratics with general, integer-root, double-root, linear, constant and nearly linear coefficients, at every height on a fine grid",
  "The tests evaluate single curves; an estimate that is too narrow for some shapes changes results only when two curves come close there.",
  ["src/curve/mod.rs", "src/curve/transverse.rs"], [("EstParab::from_cubic", "src/curve/mod.rs"), ("transversal_after, transversal_before", "src/curve/transverse.rs"), ("Quadratic::signs, push_quadratic_signs", "src/curve/mod.rs")],
  ["EstParab::from_cubic, sub", "solve_cubic_in_unit_interval", "transversal_after, transversal_before, quad_max_between, quad_min_between", "solve_t_for_y", "Quadratic::{signs, eval, shift, add, max_coeff}", "push_quadratic_signs, monic_quadratic_roots", "CurveOrder::push"],
  "pairs of curves from fifteen deterministic families, each at a symbolic integer position in [-500, 500] (horizontally; transversality: both ways), judged at 49 points of each curve and 33 heights; quadratics from eight deterministic "
  "families at a symbolic height, every multiple of 1/8 in [-64, 64]; families exhausted; outside: other shapes, symbolic coefficients", c14,
  assumes=["in families with move=1 the rounding errors of translated coordinates are not modelled (they are exercised only by the native replays of sampled positions)"])
