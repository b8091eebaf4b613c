// Replays spec/Errs.tla on arc_anyhow, errors and error_report.
use arc_anyhow::{Context, Error};
use error_report::{anyhow, bail, ensure, Category, ErrorReport, ErrorReportEntry, ErrorReporting, FormattedError, ErrorList, ItemName, ItemScope, SourceLanguage};
use errors::{bail_to_errors, Errors, ErrorsOr};
use serde_json::{json, Value};
use std::collections::hash_map::DefaultHasher;
use std::fmt;
use std::hash::{Hash, Hasher};
use std::io::BufRead;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
#[derive(Debug)]
struct StdE(String, Option<Box<StdE>>);
impl fmt::Display for StdE { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str(&self.0) } }
impl std::error::Error for StdE { fn source(&self) -> Option<&(dyn std::error::Error + 'static)> { self.1.as_ref().map(|x| &**x as _) } }
fn fresh(k: &str, n: i64) -> Result<(), Error> {
    let m = format!("m{n}");
    match k {
        "fmt" => bail!("fmt {}", m),
        "inl" => { ensure!(m.is_empty(), "inline {m}"); Ok(()) }
        "static" => Err(anyhow!("a static message")),
        "dyn" => Err(anyhow!(format!("{m} dyn"))),
        "un" => Err(anyhow!("at {} of {}", format!("DefId({n}:5 ~ {m}[a1B2]::f)"), 7)),
        "std" => Err(Error::from(StdE(format!("{m} std"), None))),
        "stdun" => Err(StdE(format!("DefId(0:{n} ~ {m}[0000]) std"), None).into()),
        "std2" => Err(StdE(format!("m{} ctx", n - 1), Some(Box::new(StdE(format!("{m} std"), None)))))?,
        "aa" => { arc_anyhow::ensure!(n < 0, "{m} aa"); Ok(()) }
        "any" => Err(anyhow::anyhow!("{m} any").into()),
        "msg" => Err(Error::msg(format!("{m} msg"))),
        "none" => None::<()>.context(format!("{m} none")),
        _ => panic!("{k}"),
    }
}
fn item(i: u64, wrong: bool) -> ItemName {
    ItemName { name: Rc::from(if wrong { format!("wrong{i}") } else { format!("item{i}") }), id: 100 - i, unique_name: (i % 2 == 1).then(|| Rc::from(format!("u{i}"))), defining_target: (i % 2 == 0).then(|| Rc::from(format!("t{i}"))) }
}
fn caught(f: impl FnOnce()) -> String {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(()) => "ok".into(),
        Err(p) => format!("panic {}", p.downcast_ref::<String>().cloned().unwrap_or_default()),
    }
}
fn will(e: &Errors, n: i64) -> ErrorsOr<i32> { bail_to_errors!(e, "fmt {}", format!("m{n}")) }
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    for line in std::io::stdin().lock().lines() {
        let hist: Vec<Value> = serde_json::from_str(&line.unwrap()).unwrap();
        let nh = hist[0]["h"].as_array().unwrap().len();
        let mut h: Vec<Option<Error>> = vec![None; nh];
        let mut es: Vec<Errors> = hist[0]["es"].as_array().unwrap().iter().map(|_| Errors::new()).collect();
        let (rep, dynrep) = ErrorReport::new_rc_or_ignore(true, SourceLanguage::Rust);
        let (rep, (none, ign)) = (rep.unwrap(), ErrorReport::new_rc_or_ignore(false, SourceLanguage::Cpp));
        assert!(none.is_none());
        let mut scopes: Vec<ItemScope> = vec![];
        let mut ign_scopes: Vec<ItemScope> = vec![];
        let mut ids: Vec<u64> = vec![];
        let mut out = vec![];
        for s in &hist {
            let (op, how) = (s["op"].as_str().unwrap(), s["how"].as_str().unwrap());
            let (a, b, n) = (s["a"].as_u64().unwrap() as usize, s["b"].as_u64().unwrap() as usize, s["n"].as_i64().unwrap());
            let mut res = String::new();
            match op {
                "new" => h[a - 1] = Some(fresh(how, n).unwrap_err()),
                "ctx" => {
                    let e = h[a - 1].take().unwrap();
                    let c = format!("m{n} ctx");
                    h[a - 1] = Some(match how {
                        "method" => e.context(c),
                        "result" => Err::<(), Error>(e).context(c).unwrap_err(),
                        _ => Err::<(), Error>(e).with_context(|| c).unwrap_err(),
                    });
                }
                "clone" => h[b - 1] = h[a - 1].clone(),
                "conv" => { let e = h[a - 1].take().unwrap(); h[a - 1] = Some(Error::from(e.into_anyhow())) }
                "drop" => h[a - 1] = None,
                "add" => {
                    let e = h[b - 1].take().unwrap();
                    if how == "add" { es[a - 1].add(e) } else if es[a - 1].consume_error::<i32>(Err(e)).is_some() { res = "kept".into() }
                }
                "pass" => res = if how == "consume" { (es[a - 1].consume_error(Ok(7)) == Some(7)).then_some("ok") } else { matches!(es[a - 1].consolidate_on_err(Ok(7)), Ok(7)).then_some("ok") }.unwrap_or("lost").into(),
                "bail" => res = if will(&es[a - 1], n).is_err() { "will" } else { "none" }.into(),
                "consolidate" => match es[a - 1].consolidate() { Ok(()) => res = "ok".into(), Err(l) => { res = "err".into(); h[b - 1] = Some(Error::from(l)) } },
                "consolidate_on" => { let e = h[b - 1].take().unwrap(); match es[a - 1].consolidate_on_err::<i32>(Err(e)) { Ok(_) => res = "ok".into(), Err(l) => { res = "err".into(); h[b - 1] = Some(Error::from(l)) } } }
                "discard" => es[a - 1].discard(),
                "dropc" => { let e = std::mem::take(&mut es[a - 1]); res = caught(|| drop(e)) }
                "report" => { rep.report(h[a - 1].as_ref().unwrap()); ign.report(h[a - 1].as_ref().unwrap()) }
                "enter" => { scopes.push(ItemScope::new(&*dynrep, item(a as u64, false))); ign_scopes.push(ItemScope::new(&*ign, item(a as u64, false))); ids.push(a as u64) }
                "enterwrong" => res = caught(|| { rep.enter_item(item(a as u64, true)); }),
                "exit" => { scopes.pop(); ign_scopes.pop(); ids.pop(); }
                "in" => { ign.assert_in_item(item(a as u64, false)); res = caught(|| dynrep.assert_in_item(item(a as u64, false))) }
                "cat" => { let c = match a { 1 => Category::Function, 2 => Category::Variable, _ => Category::Constant }; dynrep.add_category(c); ign.add_category(c) }
                _ => panic!("{op}"),
            }
            let hash = |e: &Error| { let mut s = DefaultHasher::new(); e.hash(&mut s); s.finish() };
            let st: Vec<Value> = h.iter().map(|e| match e {
                None => Value::Null,
                Some(e) => {
                    let eq: Vec<usize> = (0..nh).filter(|j| h[*j].as_ref().is_some_and(|x| x == e)).collect();
                    if h.iter().flatten().any(|x| x == e && hash(x) != hash(e)) { panic!("equal errors hash differently") }
                    let r = e.root_cause();
                    let kind = if r.downcast_ref::<FormattedError>().is_some() { "formatted" } else if r.downcast_ref::<ErrorList>().is_some() { "list" } else if r.downcast_ref::<StdE>().is_some() { "std" } else { "other" };
                    json!([format!("{e}"), format!("{e:#}"), format!("{e:?}"), eq, kind, r.to_string()])
                }
            }).collect();
            let em: Vec<bool> = es.iter().map(|e| e.is_empty()).collect();
            out.push(json!([res, st, em]));
        }
        let j1 = rep.to_json_string();
        while scopes.pop().is_some() {}
        for e in &es { e.discard() }
        let back: Vec<ErrorReportEntry> = serde_json::from_str(&j1).expect("the report does not read back");
        let again = serde_json::to_string_pretty(&back).unwrap();
        println!("=> {}", json!([out, serde_json::from_str::<Value>(&j1).unwrap(), again == j1 && rep.to_json_string() == j1]));
    }
}
