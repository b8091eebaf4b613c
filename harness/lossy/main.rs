// Replays spec/Lossy.tla on LossyFormatter, its C++ wrapper, crubit::Fmt and lossy_utf8.
use lossy_formatter::LossyFormatter;
use std::fmt::{self, Display, Formatter, Write};
use std::io::BufRead;
use std::cell::RefCell;
#[path = "/repo/support/cc_std_impl/lossy_utf8.rs"]
mod l;
use l::lossy_utf8::{debug_bytes, LossyUtf8Display};
#[derive(Clone, Debug)]
struct Op { op: String, b: Vec<u8> }
extern "C" {
    fn c_op(f: *mut LossyFormatter<'_, '_>, op: i32, data: *const u8, n: usize) -> i64;
    fn c_fmt(f: *mut LossyFormatter<'_, '_>, kind: i32, ops: *const i32, lens: *const usize, data: *const u8, n: usize) -> bool;
}
struct Sink { out: String, cap: usize, calls: usize, failed: bool }
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        // all or nothing; an empty write needs no room
        if !s.is_empty() && (self.failed || self.out.len() + s.len() > self.cap || self.calls == 0) { self.failed = true; return Err(fmt::Error); }
        if !s.is_empty() { self.calls -= 1 }
        self.out.push_str(s);
        Ok(())
    }
}
fn code(op: &str) -> i32 { match op { "slice" => 0, "byte" => 1, "fill" => 2, "flush" => 3, _ => panic!() } }
thread_local!(static RETS: RefCell<Vec<i64>> = RefCell::new(vec![]));
struct Case<'a> { mode: &'a str, ops: &'a [Op] }
impl Display for Case<'_> {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        let mut lf = LossyFormatter::new(f);
        if self.mode == "absl" || self.mode == "ostream" {
            let codes: Vec<i32> = self.ops.iter().map(|o| code(&o.op)).collect();
            let lens: Vec<usize> = self.ops.iter().map(|o| o.b.len()).collect();
            let data: Vec<u8> = self.ops.iter().flat_map(|o| o.b.clone()).collect();
            let ok = unsafe { c_fmt(&mut lf, (self.mode == "ostream") as i32, codes.as_ptr(), lens.as_ptr(), data.as_ptr(), codes.len()) };
            RETS.with(|r| r.borrow_mut().push(ok as i64));
            return if ok { Ok(()) } else { Err(fmt::Error) };
        }
        for o in self.ops {
            let r = if self.mode == "rust" {
                match &*o.op {
                    "slice" => lf.write_slice(&o.b) as i64,
                    "byte" => lf.write_byte(o.b[0]).is_ok() as i64,
                    "fill" => lf.write_fill(o.b.len(), o.b.first().copied().unwrap_or(0x41)) as i64,
                    _ => lf.flush() as i64,
                }
            } else {
                unsafe { c_op(&mut lf, code(&o.op), o.b.as_ptr(), o.b.len()) }
            };
            RETS.with(|x| x.borrow_mut().push(r));
            let full = if o.op == "slice" || o.op == "fill" { o.b.len() as i64 } else { 1 };
            if r != full { return Err(fmt::Error) }
        }
        Ok(())
    }
}
struct Dbg<'a>(&'a [u8]);
impl Display for Dbg<'_> { fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result { debug_bytes(self.0, f) } }
fn main() {
    std::panic::set_hook(Box::new(|i| { println!("=> PANIC {}", i.to_string().replace('\n', " ")); std::process::exit(3) }));
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap();
        let w: Vec<&str> = line.split(' ').collect();
        let (mode, spec, cap, calls) = (w[0], w[1].parse::<usize>().unwrap(), w[2].parse::<usize>().unwrap(), w[3].parse::<usize>().unwrap());
        let ops: Vec<Op> = w[4..].iter().map(|x| { let (o, b) = x.split_once(':').unwrap(); Op { op: o.into(), b: (0..b.len() / 2).map(|i| u8::from_str_radix(&b[2 * i..2 * i + 2], 16).unwrap()).collect() } }).collect();
        let mut s = Sink { out: String::new(), cap, calls, failed: false };
        RETS.with(|r| r.borrow_mut().clear());
        let all: Vec<u8> = ops.iter().flat_map(|o| o.b.clone()).collect();
        let d: Box<dyn Display> = match mode { "display" => Box::new(LossyUtf8Display(&all)), "debug" => Box::new(Dbg(&all)), _ => Box::new(Case { mode, ops: &ops }) };
        let r = match spec { 0 => write!(s, "{}", d), 1 => write!(s, "{:>20}", d), 2 => write!(s, "{:*<9.2}", d), 3 => write!(s, "{:^+#08.0}", d), _ => panic!() };
        let rets = RETS.with(|r| r.borrow().iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","));
        let hex: String = s.out.bytes().map(|b| format!("{b:02x}")).collect();
        println!("=> {} {} [{}] {}", r.is_ok() as i32, s.failed as i32, rets, hex);
    }
}
