//! Command line of the symbolic harness binary.
use crate::*;
use std::collections::BTreeMap;
use std::fmt::Write as _;

pub type Harness = (&'static str, fn());

thread_local! { static PARAMS: std::cell::RefCell<BTreeMap<String, i64>> = const { std::cell::RefCell::new(BTreeMap::new()) }; }

pub fn param(name: &str, default: i64) -> i64 {
    PARAMS.with(|p| p.borrow().get(name).cloned().unwrap_or(default))
}
thread_local! { static ONLY: std::cell::RefCell<Vec<String>> = const { std::cell::RefCell::new(vec![]) }; }
/// With `--only a,b`, assertions with other labels are skipped (panics never are).
pub fn label_on(label: &str) -> bool {
    ONLY.with(|o| o.borrow().is_empty() || o.borrow().iter().any(|l| l == label))
}
pub fn val(s: S) -> f64 {
    s.v
}
pub fn is_symbolic(s: S) -> bool {
    s.id != 0
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn map<V: std::fmt::Display>(m: &BTreeMap<String, V>) -> String {
    let v: Vec<String> = m.iter().map(|(k, v)| format!("{}: {v}", esc(k))).collect();
    format!("{{{}}}", v.join(", "))
}

/// `BIN HARNESS [--seconds N] [--paths N] [--timeout MS] [--nra] [--all] [--verbose] [--param k=v].. [--out FILE]`
pub fn run_cli(list: &[Harness]) {
    let mut a = std::env::args().skip(1);
    let mut cfg = Config::default();
    let mut name = None;
    let mut out = None;
    while let Some(x) = a.next() {
        match x.as_str() {
            "--seconds" => cfg.max_seconds = a.next().unwrap().parse().unwrap(),
            "--paths" => cfg.max_paths = a.next().unwrap().parse().unwrap(),
            "--timeout" => cfg.query_timeout_ms = a.next().unwrap().parse().unwrap(),
            "--seed" => cfg.seed = a.next().unwrap().parse().unwrap(),
            "--nra" => cfg.nra = true,
            "--all" => cfg.stop_at_first = false,
            "--stuck" => cfg.stuck_s = a.next().unwrap().parse().unwrap(),
            "--verbose" => cfg.verbose = true,
            "--only" => ONLY.with(|o| *o.borrow_mut() = a.next().unwrap().split(',').map(String::from).collect()),
            "--out" => out = a.next(),
            "--list" => {
                for l in list {
                    println!("{}", l.0);
                }
                return;
            }
            "--param" => {
                let kv = a.next().unwrap();
                let (k, v) = kv.split_once('=').unwrap();
                PARAMS.with(|p| p.borrow_mut().insert(k.into(), v.parse().unwrap()));
            }
            _ => name = Some(x),
        }
    }
    let name = name.expect("harness name");
    let f = list.iter().find(|x| x.0 == name).expect("unknown harness").1;
    let r = explore(&cfg, &f);
    let mut s = String::new();
    let viols: Vec<String> = r
        .violations
        .iter()
        .map(|v| format!("{{\"label\": {}, \"detail\": {}, \"inputs\": {}}}", esc(&v.label), esc(&v.detail), map(&v.inputs)))
        .collect();
    let samples: Vec<String> = r.sample_inputs.iter().map(map).collect();
    let _ = write!(
        s,
        "{{\"harness\": {}, \"paths\": {}, \"assumed_away\": {}, \"flip_queries\": {}, \"assert_queries\": {}, \"trivial_asserts\": {}, \"solver_s\": {:.3}, \"slowest_query_s\": {:.3}, \"wall_s\": {:.3}, \"max_depth\": {}, \"diverged\": {}, \"pending\": {}, \"unknown\": {}, \"engine_limits\": {}, \"covers\": {}, \"checks\": {}, \"complete\": {}, \"inputs\": {}, \"rounded_ops\": {}, \"nonlinear_ops\": {}, \"concretized\": {}, \"cut_off\": [{}], \"samples\": [{}], \"violations\": [{}]}}",
        esc(&name), r.paths, r.assumed_away, r.flip_queries, r.assert_queries, r.trivial_asserts, r.solver_s, r.slowest_query_s, r.wall_s, r.max_depth,
        r.diverged, r.pending, r.unknown, map(&r.engine_limits), map(&r.covers), map(&r.checks), r.complete, r.inputs, r.rounded_ops, r.nonlinear_ops, r.concretized,
        r.cut_off.iter().map(map).collect::<Vec<_>>().join(", "), samples.join(", "), viols.join(", ")
    );
    match out {
        Some(p) => std::fs::write(p, s).unwrap(),
        None => println!("{s}"),
    }
}
