#![allow(unused)]
use std::collections::BTreeMap;
use std::ffi::c_void;
use std::future::Future;
use std::pin::Pin;
use std::sync::Mutex;
use std::task::{Context, Poll, Waker};
extern "C" { fn t_ev(e: u8, n: u32); }
fn ev(e: u8, n: u32) { unsafe { t_ev(e, n) } }
pub struct Val { pub n: u32, own: Box<u32> }
impl Drop for Val { fn drop(&mut self) { assert_eq!(*self.own, self.n); LIVE.fetch_sub(1, std::sync::atomic::Ordering::SeqCst); ev(b'v', self.n) } }
fn mk(n: u32) -> Val { LIVE.fetch_add(1, std::sync::atomic::Ordering::SeqCst); Val { n, own: Box::new(n) } }
impl Default for Val { fn default() -> Val { mk(0) } }
impl Val { pub async fn me(self) -> Val { Step.await; mk(self.n + 50) } pub fn make(n: u32) -> Val { mk(n) } }
#[derive(Clone, Copy)] #[repr(C, align(32))] pub struct Big { pub a: [u64; 8] }
static SCRIPT: Mutex<Vec<(u8, u32)>> = Mutex::new(Vec::new());
static HANDLES: Mutex<BTreeMap<u32, Waker>> = Mutex::new(BTreeMap::new());
pub fn script(s: &str) {
    let mut v: Vec<(u8, u32)> = s.split(',').filter(|x| !x.is_empty()).map(|x| (x.as_bytes()[0], x[1..].parse().unwrap_or(0))).collect();
    v.reverse();
    *SCRIPT.lock().unwrap() = v;
}
pub fn script_left() -> u32 { SCRIPT.lock().unwrap().len() as u32 }
/// One suspension point: does what the script says with the waker of its task.
struct Step;
impl Future for Step {
    type Output = ();
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        loop {
            let (op, k) = SCRIPT.lock().unwrap().pop().expect("script");
            match op {
                b'r' => cx.waker().wake_by_ref(),
                b'w' => cx.waker().clone().wake(),
                b'd' => drop(cx.waker().clone()),
                b'c' => { let w = cx.waker().clone(); let old = HANDLES.lock().unwrap().insert(k, w); drop(old) }
                b'u' => {
                    let mut h = HANDLES.lock().unwrap();
                    match h.get_mut(&k) { Some(w) => w.clone_from(cx.waker()), None => { h.insert(k, cx.waker().clone()); } }
                }
                b'P' => return Poll::Pending,
                b'R' => return Poll::Ready(()),
                _ => panic!("script"),
            }
        }
    }
}
pub async fn val(v: Val) -> Val { Step.await; mk(v.n + 50) }
pub async fn echo(v: Val) -> Val { Step.await; v }
pub async fn twice(v: Val) -> Val { Step.await; Step.await; mk(v.n + 50) }
pub async fn byte(v: Val) -> u8 { Step.await; (v.n + 50) as u8 }
pub async fn wide(v: Val) -> i64 { Step.await; v.n as i64 + 50 }
pub async fn big(v: Val) -> Big { Step.await; Big { a: [v.n as u64 + 50; 8] } }
pub async fn text(v: Val) -> String { Step.await; (v.n + 50).to_string() }
pub async fn unit(v: Val) { Step.await }
pub async fn by_ref(v: &Val) -> u32 { Step.await; v.n }
pub struct Df(dyn_future::DynFuture<'static>);
impl Default for Df { fn default() -> Df { Df(Default::default()) } }
impl Df {
    pub fn make(v: Val) -> Df { Df(dyn_future::DynFuture::from_future(async move { Step.await; drop(v) })) }
    pub fn poll(&mut self, w: *const c_void) -> bool { unsafe { self.0.poll(w as *const cpp_waker::rs_std::CppWaker) } }
    pub fn done(&self) -> bool { self.0.is_completed_or_discarded() }
    pub fn discard(&mut self) { self.0.discard() }
    pub fn take(self) -> bool { let o: Option<Pin<Box<dyn Future<Output = ()> + Send + 'static>>> = self.0.into(); o.is_some() }
}
fn held(k: u32) -> Waker { HANDLES.lock().unwrap().remove(&k).unwrap() }
pub fn h_wake_ref(k: u32) { HANDLES.lock().unwrap()[&k].wake_by_ref() }
pub fn h_wake(k: u32) { held(k).wake() }
pub fn h_drop(k: u32) { drop(held(k)) }
pub fn h_clone(k: u32, j: u32) { let mut h = HANDLES.lock().unwrap(); let w = h[&k].clone(); h.insert(j, w); }
pub fn h_has(k: u32) -> bool { HANDLES.lock().unwrap().contains_key(&k) }
static LIVE: std::sync::atomic::AtomicI64 = std::sync::atomic::AtomicI64::new(0);
/// Values alive, apart from the driver's own.
pub fn live() -> i64 { LIVE.load(std::sync::atomic::Ordering::SeqCst) - 1 }
