//! Replays histories of the Memo specification on the real memoisation macros.
//! Input line: the JSON history.  Output: `=> ok` or `=> BAD <what>`.
use serde_json::Value;
use std::cell::RefCell;
use std::io::BufRead;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

pub struct Graph {
    succ: Vec<Vec<u32>>,
    kind: Vec<char>,
    evals: RefCell<Vec<u32>>,
}

memoized::query_group! {
    pub struct Db {
        #[input]
        fn graph(&self) -> Rc<Graph>;
        #[break_cycles_with = format!("~{}", n)]
        fn qb(&self, n: u32) -> String;
        fn qs(&self, n: u32) -> String;
    }
}

thread_local!(static LAST: RefCell<u32> = const { RefCell::new(0) });
fn demand(db: &Db, n: u32) -> String {
    match db.graph().kind[n as usize - 1] {
        'b' => db.qb(n),
        's' => {
            LAST.with(|l| *l.borrow_mut() = n);
            db.qs(n)
        }
        _ => match qm(db, n) {
            Ok(v) => v,
            Err(()) => format!("~{n}"),
        },
    }
}
fn eval(db: &Db, n: u32) -> String {
    let g = db.graph();
    g.evals.borrow_mut()[n as usize - 1] += 1;
    let vals: Vec<String> = g.succ[n as usize - 1].iter().map(|&m| demand(db, m)).collect();
    format!("{n}({})", vals.join(" "))
}
fn eval_m(db: &Db, n: u32) -> Result<String, ()> {
    Ok(eval(db, n))
}
fn on_cycle<T>(_name: &str) -> Result<T, ()> {
    Err(())
}
memoized::memoized!(on_cycle, pub fn qm(db: &Db, n: u32) -> Result<String, ()> = eval_m);

fn replay(h: &Value) -> Result<(), String> {
    let h = h.as_array().unwrap();
    let succ: Vec<Vec<u32>> = h[0]["succ"].as_array().unwrap().iter()
        .map(|l| l.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u32).collect()).collect();
    let kind: Vec<char> = h[0]["kind"].as_array().unwrap().iter()
        .map(|k| k.as_str().unwrap().chars().next().unwrap()).collect();
    let n = succ.len();
    let mut dbs: Vec<(u64, Db, Rc<Graph>)> = vec![];
    for (i, st) in h.iter().enumerate().skip(1) {
        let d = st["db"].as_u64().unwrap();
        if !dbs.iter().any(|x| x.0 == d) {
            let g = Rc::new(Graph { succ: succ.clone(), kind: kind.clone(), evals: RefCell::new(vec![0; n]) });
            dbs.push((d, Db::new(g.clone(), eval, eval), g));
        }
        let (_, db, g) = dbs.iter().find(|x| x.0 == d).unwrap();
        *g.evals.borrow_mut() = vec![0; n];
        let q = st["q"].as_u64().unwrap() as u32;
        let got = match catch_unwind(AssertUnwindSafe(|| demand(db, q))) {
            Ok(v) => v,
            Err(e) => {
                let m = e.downcast_ref::<String>().cloned()
                    .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                if m.contains("Cycle detected: 'qs'") { format!("!{}", LAST.with(|l| *l.borrow())) } else { format!("panic: {m}") }
            }
        };
        let want = st["res"].as_str().unwrap();
        if got != want {
            return Err(format!("step {i}: query {q} on database {d} gave {got:?}, the specification gives {want:?}"));
        }
        for m in 0..n {
            let (e, w) = (g.evals.borrow()[m], st["evals"][m].as_u64().unwrap() as u32);
            if e > w {
                return Err(format!("step {i}: query {q} on database {d} evaluated node {} {e} times, the specification allows {w}", m + 1));
            }
        }
    }
    Ok(())
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    for line in std::io::stdin().lock().lines() {
        let v: Value = serde_json::from_str(&line.unwrap()).unwrap();
        match catch_unwind(AssertUnwindSafe(|| replay(&v))) {
            Ok(Ok(())) => println!("=> ok"),
            Ok(Err(e)) => println!("=> BAD {e}"),
            Err(_) => println!("=> BAD the replay panicked"),
        }
    }
}
