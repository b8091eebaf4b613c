//! Runs graphs of the Toposort specification through the real sort.
use cc_bindings_from_rs_toposort::{toposort, Dependency, TopoSortResult};
use serde_json::Value;
use std::collections::BTreeSet;
use std::io::BufRead;
use std::panic::{catch_unwind, AssertUnwindSafe};

fn ints(v: &Value) -> Vec<u64> {
    v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect()
}

fn run(h: &Value) -> Result<(), String> {
    let n = h["n"].as_u64().unwrap();
    let rank = ints(&h["rank"]);
    let edges: Vec<(u64, u64)> = h["edges"].as_array().unwrap().iter().map(|e| { let e = ints(e); (e[0], e[1]) }).collect();
    let ordered_w = ints(&h["ordered"]);
    let failed_w: BTreeSet<u64> = ints(&h["failed"]).into_iter().collect();
    let r = |a: &u64| rank[*a as usize - 1];
    let injective = (0..rank.len()).all(|i| (0..i).all(|j| rank[i] != rank[j]));
    // 0: as given; 1: every edge twice; 2: nodes and edges listed backwards
    for variant in 0..3 {
        if variant == 2 && !injective {
            continue; // the input order breaks ties
        }
        let mut nodes: Vec<u64> = (1..=n).collect();
        let mut es = edges.clone();
        if variant == 1 { es.extend(edges.iter().cloned()); }
        if variant == 2 { nodes.reverse(); es.reverse(); }
        let TopoSortResult { ordered, failed } = toposort(
            nodes,
            es.into_iter().map(|(predecessor, successor)| Dependency { predecessor, successor }),
            |a: &u64, b: &u64| r(a).cmp(&r(b)),
        );
        if ordered != ordered_w {
            return Err(format!("variant {variant}: ordered {ordered:?}, the specification gives {ordered_w:?}"));
        }
        if failed.iter().cloned().collect::<BTreeSet<_>>() != failed_w || failed.len() != failed_w.len() {
            return Err(format!("variant {variant}: failed {failed:?}, the specification gives {failed_w:?}"));
        }
        if failed.windows(2).any(|w| r(&w[0]) > r(&w[1])) {
            return Err(format!("variant {variant}: failed nodes {failed:?} are not in the preferred order"));
        }
    }
    Ok(())
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    for line in std::io::stdin().lock().lines() {
        let v: Value = serde_json::from_str(&line.unwrap()).unwrap();
        match catch_unwind(AssertUnwindSafe(|| run(&v))) {
            Ok(Ok(())) => println!("=> ok"),
            Ok(Err(e)) => println!("=> BAD {e}"),
            Err(e) => println!("=> BAD panic: {}", e.downcast_ref::<String>().cloned().unwrap_or_default()),
        }
    }
}
