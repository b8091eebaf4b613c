// Replays spec/Tokens.tla on token_stream_printer.
use proc_macro2::{Delimiter, Group, Ident, Literal, Punct, Spacing, Span, TokenStream, TokenTree};
use serde_json::{json, Value};
use std::io::BufRead;
use token_stream_printer::*;
fn id(s: &str) -> TokenTree { if let Some(r) = s.strip_prefix("r#") { Ident::new_raw(r, Span::call_site()).into() } else { Ident::new(s, Span::call_site()).into() } }
fn flat(ts: TokenStream, out: &mut Vec<String>) {
    let mut it = ts.into_iter().peekable();
    while let Some(t) = it.next() {
        match t {
            TokenTree::Group(g) => {
                let d = match g.delimiter() { Delimiter::Parenthesis => "()", Delimiter::Bracket => "[]", Delimiter::Brace => "{}", Delimiter::None => "  " };
                out.push(d[..1].into());
                flat(g.stream(), out);
                out.push(d[1..].into());
            }
            TokenTree::Punct(p) => {
                let j = p.as_char() == ':' && p.spacing() == Spacing::Joint && matches!(it.peek(), Some(TokenTree::Punct(q)) if q.as_char() == ':');
                out.push(format!("{}{}", p.as_char(), if j { "+" } else { "" }));
            }
            t => out.push(t.to_string()),
        }
    }
}
fn main() {
    std::panic::set_hook(Box::new(|i| { println!("=> PANIC {}", i.to_string().replace('\n', " ")); std::process::exit(3) }));
    for line in std::io::stdin().lock().lines() {
        let hist: Vec<Value> = serde_json::from_str(&line.unwrap()).unwrap();
        let mut st: Vec<Vec<TokenTree>> = vec![vec![]];
        let (mut tags, mut marks) = (0, false);
        for s in &hist {
            let (c, v, j) = (s["t"]["c"].as_str().unwrap(), s["t"]["v"].as_str().unwrap(), s["t"]["j"].as_bool().unwrap());
            let sp = if j { Spacing::Joint } else { Spacing::Alone };
            marks |= ["nl", "sp", "com", "lity", "tag"].contains(&c);
            if c == "open" { st.push(vec![]); continue }
            let cur = st.last_mut().unwrap();
            match c {
                "id" => cur.push(id(v)),
                "lit" => cur.push(TokenTree::Literal(v.parse::<Literal>().unwrap())),
                "lt" => { cur.push(Punct::new('\'', Spacing::Joint).into()); cur.push(id(v)) }
                "p" => cur.push(Punct::new(v.chars().next().unwrap(), sp).into()),
                "nl" => cur.push(id("__NEWLINE__")),
                "sp" => cur.push(id("__SPACE__")),
                "hash" => cur.push(id("__HASH_TOKEN__")),
                "com" => { cur.push(id("__COMMENT__")); cur.push(Literal::string(v).into()) }
                "lity" => { cur.push(id("__LITERALLY__")); cur.push(Literal::string(v).into()) }
                "tag" => {
                    tags += 1;
                    cur.push(id("__CAPTURE_TAG__"));
                    for x in [format!("dir/\"f{tags}\""), format!("{}", tags * 10), format!("{}", tags * 10 + 5)] { cur.push(Literal::string(&x).into()) }
                    cur.push(id("__COMMENT__"));
                    cur.push(Literal::string("Generated from: x").into());
                }
                "beg" => cur.push(id("__CAPTURE_BEGIN__")),
                "end" => cur.push(id("__CAPTURE_END__")),
                "close" => {
                    let d = match v { "(" => Delimiter::Parenthesis, "[" => Delimiter::Bracket, _ => Delimiter::Brace };
                    let g = Group::new(d, st.pop().unwrap().into_iter().collect());
                    st.last_mut().unwrap().push(g.into());
                }
                _ => panic!(),
            }
        }
        let ts: TokenStream = st.pop().unwrap().into_iter().collect();
        let out = tokens_to_string(ts.clone()).unwrap();
        let (out2, map) = tokens_to_string_with_provenance(ts.clone()).unwrap();
        let mut w = String::new();
        write_unformatted_tokens(&mut w, ts.clone()).unwrap();
        let same = out == out2 && out == w && rs_tokens_to_formatted_string(ts.clone(), None).unwrap() == out.replace("...", "/*...*/") && cc_tokens_to_formatted_string(ts.clone(), None).unwrap() == out;
        let back = if hist.iter().any(|s| s["t"]["c"] == "lity") { Value::Null } else { match out.parse::<TokenStream>() {
            Err(e) => json!(["unreadable", e.to_string()]),
            Ok(ts2) => { let mut f = vec![]; flat(ts2.clone(), &mut f); json!([f, marks || tokens_to_string(ts2).unwrap() == out]) }
        } };
        let fmt = out.replace('\n', "\n\n  ");
        let prov = |text: &str| -> Vec<Value> { let m = fix_provenance_map_postformatting(text, "Generated from: ", &map); (1..=tags).map(|k| match m.get(&k) { None => Value::Null, Some(p) => json!([p.formatted_start, p.formatted_end, p.original_path, p.original_start, p.original_end]) }).collect() };
        println!("=> {}", json!({"out": out, "same": same, "back": back, "p1": prov(&out), "p2": prov(&fmt), "extra": map.len() > tags}));
    }
}
