"""Properties this technique does not reach (listed in MANIFEST.json under not_applicable)."""


def N(pid, title, statement, over, text, why, files, mech, reason):
    return {"line": {"id": pid, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
                     "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech], "hook_needed": None}},
            "reason": reason}


NOT_APPLICABLE = [
    N("C90", "Output curves stay within the requested accuracy of the input curves",
      "For curved input, every point of the output boundary lies within the stated tolerance of the input boundary, and every point of the input boundary that "
      "bounds the result lies within that tolerance of the output.",
      ["inputs"], "all cubic Bezier inputs of moderate size",
      "The tests compare a few curves by snapshot.", ["src/position.rs", "src/curve/mod.rs"],
      [("compute_positions", "src/position.rs"), ("intersect_cubics", "src/curve/mod.rs")],
      "the claim quantifies over roots of quartics and cubics of symbolic coefficients computed by iterative floating-point root finding; neither the exact-rational "
      "engine (nonlinear real arithmetic with unbounded iteration) nor bit-precise SAT (one cubic solve does not terminate within hours) can decide it"),
]
