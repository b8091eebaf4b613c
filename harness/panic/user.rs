#![allow(unused)]
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
extern "C-unwind" { fn t_next() -> u8; fn t_ev(e: u8); fn t_cpp(); fn t_armed(which: u8) -> bool; }
/// One Rust frame: does what the script says, logging every step.
fn act(region: bool) {
    loop {
        let i = unsafe { t_next() };
        unsafe { t_ev(i) };
        match i {
            b'r' => return,
            b'p' => panic!("boom"),
            b'u' => resume_unwind(Box::new(7u8)),
            b'i' => { let v: Vec<u8> = Vec::new(); let k = std::hint::black_box(3); std::hint::black_box(v[k]); }
            b'[' => if catch_unwind(AssertUnwindSafe(|| act(true))).is_err() { unsafe { t_ev(b'h') } },
            b']' => return,
            b'c' => { unsafe { t_cpp() }; unsafe { t_ev(b'y') } }
            _ => panic!("script"),
        }
    }
}
/// The frame starts where the driver said it would: in the next armed hook.
fn hook_(w: u8) { if unsafe { t_armed(w) } { act(false) } }
fn hook() { hook_(b'f') }

#[derive(Debug)]
pub struct O { pub v: u32 }
impl Drop for O { fn drop(&mut self) { hook_(b'd') } }
impl Clone for O { fn clone(&self) -> O { hook(); O { v: self.v } } fn clone_from(&mut self, s: &O) { hook(); self.v = s.v } }
impl Default for O { fn default() -> O { hook_(b'n'); O { v: 7 } } }
impl PartialEq for O { fn eq(&self, o: &O) -> bool { hook(); self.v == o.v } }
impl PartialOrd for O { fn partial_cmp(&self, o: &O) -> Option<std::cmp::Ordering> { hook(); self.v.partial_cmp(&o.v) } }
impl std::fmt::Display for O { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { hook(); write!(f, "{}", self.v) } }
impl From<u64> for O { fn from(v: u64) -> O { hook(); O { v: v as u32 } } }
impl From<O> for u16 { fn from(o: O) -> u16 { hook(); o.v as u16 } }
impl O {
    pub fn quiet() -> O { O { v: 7 } }
    pub fn make() -> O { hook(); O { v: 7 } }
    pub fn look(&self) -> u32 { hook(); self.v }
    pub fn touch(&mut self) -> u32 { hook(); self.v }
    pub fn eat(self) -> u32 { let v = self.v; hook(); v }
    pub fn swallow(self) -> u32 { self.v }        // the destructor of the parameter is the frame
}
#[derive(Clone, Copy)] pub struct P { pub v: i32 }
impl PartialEq for P { fn eq(&self, o: &P) -> bool { hook(); self.v == o.v } }
impl Eq for P {}
impl PartialOrd for P { fn partial_cmp(&self, o: &P) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
impl Ord for P { fn cmp(&self, o: &P) -> std::cmp::Ordering { hook(); self.v.cmp(&o.v) } }
impl std::ops::Add for P { type Output = P; fn add(self, o: P) -> P { hook(); P { v: self.v + o.v } } }
impl std::ops::AddAssign for P { fn add_assign(&mut self, o: P) { hook(); self.v += o.v } }
impl std::ops::Neg for P { type Output = P; fn neg(self) -> P { hook(); P { v: -self.v } } }
impl std::ops::Not for P { type Output = bool; fn not(self) -> bool { hook(); self.v == 0 } }
impl std::ops::Shl for P { type Output = P; fn shl(self, o: P) -> P { hook(); P { v: self.v << o.v } } }
impl std::ops::Index<usize> for P { type Output = i32; fn index(&self, _: usize) -> &i32 { hook(); &self.v } }
impl P {
    pub fn new(v: i32) -> P { P { v } }
    pub fn by(self, o: &mut P) -> i32 { hook(); self.v + o.v }
}
pub struct It { pub n: u32 }
impl Iterator for It { type Item = u32; fn next(&mut self) -> Option<u32> { hook(); if self.n == 0 { None } else { self.n -= 1; Some(self.n) } } }
impl It { pub fn new() -> It { It { n: 2 } } }
pub struct Bag { pub n: u32 }
impl Bag { pub fn new() -> Bag { Bag { n: 2 } } }
impl IntoIterator for Bag { type Item = u32; type IntoIter = It; fn into_iter(self) -> It { hook(); It { n: self.n } } }
pub trait Tr { fn m(&self, x: u32) -> u32; fn s() -> u32; fn d(&self) -> u32 { hook(); 7 } }
impl Tr for P { fn m(&self, x: u32) -> u32 { hook(); x } fn s() -> u32 { hook(); 7 } }

pub fn free() { hook() }
pub fn value(a: u64, b: u8) -> u64 { hook(); a + b as u64 }
pub fn opt(a: Option<u32>) -> Option<u32> { hook(); a }
pub fn optd(a: Option<O>) -> Option<O> { hook(); a }
pub fn tup(a: (u32, u8)) -> (u8, u32) { hook(); (a.1, a.0) }
pub fn tupd(a: (O, u8)) -> (u8, O) { hook(); (a.1, a.0) }
pub fn arr(a: [u16; 3]) -> [u16; 3] { hook(); a }
pub fn string() -> String { hook(); String::from("seven") }
pub fn vector() -> Vec<u32> { hook(); vec![7] }
pub fn slice(a: &[u32]) -> usize { hook(); a.len() }
pub fn text(a: &str) -> usize { hook(); a.len() }
pub fn two(a: &mut u32, b: &u32) -> u32 { hook(); *a + *b }
pub fn back<'a>(a: &'a P) -> &'a P { hook(); a }
pub fn res(a: u32) -> Result<u32, u8> { hook(); Ok(a) }
pub unsafe fn unsafe_fn(p: *const u32) -> u32 { hook(); *p }
pub extern "C" fn c_abi(a: u32) -> u32 { hook(); a }
#[no_mangle] pub extern "C" fn c_named(a: u32) -> u32 { hook(); a }
#[no_mangle] pub fn rust_named(a: u32) -> u32 { hook(); a }
pub fn via(f: extern "C" fn(u32) -> u32) -> u32 { f(7) }        // the frame is the C function it is given
pub fn pointer() -> extern "C" fn(u32) -> u32 { c_abi }
pub fn chr(a: char) -> char { hook(); a }
pub fn boolean(a: bool) -> bool { hook(); a }
pub fn never() -> ! { hook(); std::process::exit(9) }
pub fn rpit() -> impl Iterator<Item = u32> { hook(); vec![7].into_iter() }
pub async fn later(a: u32) -> u32 { hook(); a }
pub async fn later_with(a: O) -> u32 { a.v }
#[no_mangle] extern "C" fn t_quiet() { std::panic::set_hook(Box::new(|_| {})); }
pub fn many() -> Vec<O> { vec![O { v: 1 }, O { v: 7 }] }
pub fn ro() -> Result<O, u8> { Ok(O { v: 7 }) }
pub struct H { pub o: Option<O>, pub t: (O, u8), pub e: En }
pub enum En { A(O), B }
impl H { pub fn new() -> H { H { o: Some(O { v: 7 }), t: (O { v: 7 }, 1), e: En::B } } }
impl En { pub fn new() -> En { En::A(O { v: 7 }) } }
