// Replays histories of spec/InPlace.tla on support/ctor.rs.
// A line holds one history: `op:type op:type ...`; the answer lists what each
// operation did and which values are in place and destroyed afterwards.
#![feature(negative_impls)]
use ctor::*;
use std::cell::RefCell;
use std::io::BufRead;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::pin::Pin;
use std::rc::Rc;
use std::sync::Arc;
use std::mem::ManuallyDrop;

thread_local! {
    static DROPS: RefCell<Vec<u32>> = const { RefCell::new(Vec::new()) };
    static BAD: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
    static NEW: RefCell<(u32, bool)> = const { RefCell::new((0, false)) };
}
fn bad(s: String) { BAD.with(|b| b.borrow_mut().push(s)) }
fn dropped(id: u32) { DROPS.with(|d| { let mut d = d.borrow_mut(); if (id as usize) < d.len() { d[id as usize] += 1 } else { bad(format!("destroyed a value with identity {id:#x}")) } }) }

/// A value that knows its name and, unless it was moved into place, its address.
pub struct L { id: u32, check: u32, me: *const L, bomb: bool }
impl L {
    fn new(id: u32) -> L { L { id, check: !id, me: std::ptr::null(), bomb: false } }
}
impl Drop for L {
    fn drop(&mut self) {
        if self.check != !self.id { bad("destroyed a value that was never constructed".into()); return }
        dropped(self.id);
        if !self.me.is_null() && self.me != &raw const *self { bad(format!("value {} was destroyed away from where it was constructed", self.id)) }
        self.check = self.id;
        if self.bomb { panic!("destructor of {}", self.id) }
    }
}
fn here(id: u32) -> impl FnOnce(*mut L) { move |p| unsafe { p.write(L { id, check: !id, me: p, bomb: false }) } }
type Fnc = FnCtor<L, Box<dyn FnOnce(*mut L)>>;
fn fnc(id: u32) -> Fnc { unsafe { FnCtor::new(Box::new(here(id)) as Box<dyn FnOnce(*mut L)>) } }
// Copies, moves and defaults take their name from NEW.
fn from(src: &L, want: u32) -> Fnc {
    if src.id != want || src.check != !want { bad("constructed from something that is not the source".into()) }
    fnc(NEW.with(|n| n.borrow().0))
}
impl<'a> CtorNew<&'a L> for L { type CtorType = Fnc; type Error = Infallible; fn ctor_new(s: &'a L) -> Fnc { from(s, SRC) } }
impl<'a> CtorNew<RvalueReference<'a, L>> for L { type CtorType = Fnc; type Error = Infallible; fn ctor_new(s: RvalueReference<'a, L>) -> Fnc { from(&s, SRC) } }
impl<'a> CtorNew<ConstRvalueReference<'a, L>> for L { type CtorType = Fnc; type Error = Infallible; fn ctor_new(s: ConstRvalueReference<'a, L>) -> Fnc { from(&s, SRC) } }
impl CtorNew<()> for L {
    type CtorType = Fnc;
    type Error = Infallible;
    fn ctor_new(_: ()) -> Fnc {
        let (id, panics) = NEW.with(|n| *n.borrow());
        if panics { panic!("no default") }
        fnc(id)
    }
}
const SRC: u32 = 0;

#[recursively_pinned(PinnedDrop)]
pub struct P { tag: u32, a: L, b: L }
impl PinnedDrop for P { unsafe fn pinned_drop(self: Pin<&mut Self>) { dropped(self.tag) } }
#[recursively_pinned]
pub struct T(L, L, L);
#[recursively_pinned(PinnedDrop)]
pub struct Q { p: P, l: L, m: ManuallyDrop<L>, tag: u32 }
impl PinnedDrop for Q { unsafe fn pinned_drop(self: Pin<&mut Self>) { dropped(self.tag) } }

/// What a place holds: the names, having checked that each value is where it was built.
trait Ty: Sized + 'static {
    fn look(&self, moved: bool, out: &mut Vec<u32>);
    fn inf(p: &mut Tree, op: &str, n: u32) -> Dyn<Self, Infallible>;
    fn fal(p: &mut Tree, op: &str, n: u32) -> Dyn<Self, Er> { let _ = n; panic!("?{op}") }
}
impl Ty for L {
    fn look(&self, moved: bool, out: &mut Vec<u32>) {
        if self.check != !self.id { bad("a value in place was never constructed or is destroyed".into()); return }
        if !moved && !self.me.is_null() && self.me != &raw const *self { bad(format!("value {} is not where it was constructed", self.id)) }
        out.push(self.id)
    }
    fn inf(p: &mut Tree, op: &str, n: u32) -> Dyn<L, Infallible> {
        let raw: *mut L = p.src;
        let src: &'static L = unsafe { &*raw };
        let pin = || RvalueReference(unsafe { Pin::new_unchecked(&mut *raw) });
        match op {
            "fn" => dy(fnc(n)),
            "moved" => dy(L::new(n)),
            "rmoved" => dy(RustMoveCtor::<L>::new(L::new(n))),
            "bomb" => dy(RustMoveCtor::<L>::new(L { id: n, check: !n, me: std::ptr::null(), bomb: true })),
            "copy" => named(n, copy(src)),
            "mov" => named(n, pin()),
            "byval" => named(n, ByValue(pin())),
            "cmov" => named(n, const_mov!(src)),
            "ordefault" => { let c = p.fallible::<L>(); dflt(n, false, c) }
            "ordefaultpanic" => { let c = p.fallible::<L>(); dflt(n, true, c) }
            _ => panic!("?{op}"),
        }
    }
}
impl Ty for P {
    fn look(&self, moved: bool, out: &mut Vec<u32>) { out.push(self.tag); self.a.look(moved, out); self.b.look(moved, out) }
    fn inf(p: &mut Tree, _: &str, n: u32) -> Dyn<P, Infallible> {
        let a = p.infallible::<L>();
        let b = p.infallible::<L>();
        dy(ctor!(P { tag: n, a: a, b: b }))
    }
}
impl Ty for T {
    fn look(&self, moved: bool, out: &mut Vec<u32>) { self.0.look(moved, out); self.1.look(moved, out); self.2.look(moved, out) }
    fn inf(p: &mut Tree, _: &str, _: u32) -> Dyn<T, Infallible> {
        let a = p.infallible::<L>();
        let b = p.infallible::<L>();
        let c = p.infallible::<L>();
        dy(ctor!(T(a, b, c)))
    }
}
impl Ty for Q {
    fn look(&self, moved: bool, out: &mut Vec<u32>) { out.push(self.tag); self.p.look(moved, out); self.l.look(moved, out); self.m.look(moved, out) }
    fn inf(p: &mut Tree, _: &str, n: u32) -> Dyn<Q, Infallible> {
        let a = p.infallible::<P>();
        let b = p.infallible::<L>();
        let m = p.infallible::<ManuallyDrop<L>>();
        dy(ctor!(Q { p: a, l: b, m: m, tag: n }))
    }
}
impl Ty for ManuallyDrop<L> {
    fn look(&self, moved: bool, out: &mut Vec<u32>) { (**self).look(moved, out) }
    fn inf(p: &mut Tree, _: &str, _: u32) -> Dyn<Self, Infallible> { let c = p.infallible::<L>(); dy(ManuallyDropCtor::new(c)) }
    fn fal(p: &mut Tree, _: &str, _: u32) -> Dyn<Self, Er> { let c = p.fallible::<L>(); dy(ManuallyDropCtor::new(c)) }
}
impl Ty for Slot<L> {
    fn look(&self, moved: bool, out: &mut Vec<u32>) { if let Some(l) = self.as_opt() { l.look(moved, out) } }
    fn inf(p: &mut Tree, op: &str, _: u32) -> Dyn<Self, Infallible> {
        if op == "slotuninit" { return dy(Slot::<L>::uninit()) }
        let c = p.infallible::<L>();
        dy(Slot::new(c))
    }
    fn fal(p: &mut Tree, _: &str, _: u32) -> Dyn<Self, Er> { let c = p.fallible::<L>(); dy(Slot::new(c)) }
}

#[derive(Debug)]
pub struct Er(u32);
pub struct Er0(u32);
impl From<Er0> for Er { fn from(e: Er0) -> Er { Er(e.0) } }

/// A constructor of any shape.
pub struct Dyn<O, E>(Box<dyn FnOnce(*mut O) -> Result<(), E>>);
unsafe impl<O, E> Ctor for Dyn<O, E> {
    type Output = O;
    type Error = E;
    unsafe fn ctor(self, dest: *mut O) -> Result<(), E> { (self.0)(dest) }
}
impl<O, E> !SelfCtor for Dyn<O, E> {}
fn dy<C: Ctor + 'static>(c: C) -> Dyn<C::Output, C::Error> where C::Output: Sized { Dyn(Box::new(move |d| unsafe { c.ctor(d) })) }
fn named<C: Ctor<Output = L, Error = Infallible> + 'static>(n: u32, c: C) -> Dyn<L, Infallible> {
    Dyn(Box::new(move |d| { NEW.with(|x| *x.borrow_mut() = (n, false)); unsafe { c.ctor(d) } }))
}
fn dflt(n: u32, panics: bool, c: Dyn<L, Er>) -> Dyn<L, Infallible> {
    dy(c.ctor_map_err(move |e| { NEW.with(|x| *x.borrow_mut() = (n, panics)); e }).ctor_unwrap_or_default())
}

struct Tree { nodes: Vec<(String, String)>, at: usize, src: *mut L }
impl Tree {
    fn next(&mut self) -> (String, u32) { let o = self.nodes[self.at].0.clone(); self.at += 1; (o, self.at as u32) }
    fn fallible<O: Ty>(&mut self) -> Dyn<O, Er> {
        let (op, n) = self.next();
        let seen = |o: Pin<&mut O>| { let mut v = Vec::new(); o.look(false, &mut v) };
        match op.as_str() {
            "err" => if n % 2 == 0 { dy(ctor_error::<O, Er>(Er(n))) } else { dy(ctor_error::<O, Er0>(Er0(n)).ctor_err_into::<Er>()) },
            "unreach" => dy(UnreachableCtor::<O, Er>::new()),
            "thenok" => { let c = self.fallible::<O>(); dy(c.ctor_then(move |o| { seen(o); Ok(()) })) }
            "thenerr" => { let c = self.fallible::<O>(); dy(c.ctor_then(move |o| { seen(o); Err(Er(n)) })) }
            "thenpanic" => { let c = self.fallible::<O>(); dy(c.ctor_then(move |o| { seen(o); panic!("then") })) }
            "maperr" => { let c = self.fallible::<O>(); dy(c.ctor_map_err(|e| Er(e.0 + 1000))) }
            "orelse" => { let c = self.fallible::<O>(); let d = self.fallible::<O>(); dy(c.ctor_or_else(move |_| d)) }
            "fallible" => { let c = self.infallible::<O>(); dy(c.ctor_make_fallible::<Er>()) }
            _ => O::fal(self, &op, n),
        }
    }
    fn infallible<O: Ty>(&mut self) -> Dyn<O, Infallible> {
        let (op, n) = self.next();
        let seen = |o: Pin<&mut O>| { let mut v = Vec::new(); o.look(false, &mut v) };
        match op.as_str() {
            "unreach" => dy(UnreachableCtor::<O>::new()),
            "thenokI" => { let c = self.infallible::<O>(); dy(c.ctor_then(move |o| { seen(o); Ok(()) })) }
            "thenpanicI" => { let c = self.infallible::<O>(); dy(c.ctor_then(move |o| { seen(o); panic!("then") })) }
            "unwrap" => { let c = self.fallible::<O>(); dy(c.ctor_unwrap()) }
            "expect" => { let c = self.fallible::<O>(); dy(c.ctor_expect("expected")) }
            "orelseI" => { let c = self.fallible::<O>(); let d = self.infallible::<O>(); dy(c.ctor_or_else(move |_| d)) }
            _ => O::inf(self, &op, n),
        }
    }
}

type Out = Result<Vec<u32>, u32>;
fn see<O: Ty>(o: &O, moved: bool) -> Vec<u32> { let mut v = Vec::new(); o.look(moved, &mut v); v }
fn place<O: Ty>(op: &str, t: &mut Tree) -> Out {
    match op {
        "emplace" => { let c = t.infallible::<O>(); let p = emplace!(c); Ok(see(&*p, false)) }
        "tryemplace" => { let c = t.fallible::<O>(); match try_emplace!(c) { Ok(p) => Ok(see(&*p, false)), Err(e) => Err(e.0) } }
        "box" => { let c = t.infallible::<O>(); let p = Box::emplace(c); Ok(see(&*p, false)) }
        "trybox" => { let c = t.fallible::<O>(); Box::try_emplace(c).map(|p| see(&*p, false)).map_err(|e| e.0) }
        "rc" => { let c = t.infallible::<O>(); let p = Rc::emplace(c); let q = p.clone(); drop(p); Ok(see(&*q, false)) }
        "tryrc" => { let c = t.fallible::<O>(); Rc::try_emplace(c).map(|p| see(&*p, false)).map_err(|e| e.0) }
        "arc" => { let c = t.infallible::<O>(); let p = Arc::emplace(c); let q = p.clone(); drop(p); Ok(see(&*q, false)) }
        "tryarc" => { let c = t.fallible::<O>(); Arc::try_emplace(c).map(|p| see(&*p, false)).map_err(|e| e.0) }
        _ => panic!("?{op}"),
    }
}

struct World { slot: Option<Pin<Box<Slot<L>>>>, cell: Option<Pin<Box<L>>>, moved: bool }
fn step(op: &str, ty: &str, t: &mut Tree, w: &mut World) -> Out {
    let me = t.at as u32;
    let name = |p: bool| NEW.with(|x| *x.borrow_mut() = (me, p));
    let slot = |w: &mut World| -> *mut Pin<Box<Slot<L>>> { w.slot.get_or_insert_with(|| Box::emplace(Slot::uninit())) };
    match op {
        "replace" => { let c = t.infallible::<L>(); let s = unsafe { &mut *slot(w) }; let p = s.as_mut().replace(c); Ok(see(&*p, false)) }
        "tryreplace" => { let c = t.fallible::<L>(); let s = unsafe { &mut *slot(w) }; s.as_mut().try_replace(c).map(|p| see(&*p, false)).map_err(|e| e.0) }
        "clear" => { unsafe { &mut *slot(w) }.as_mut().clear(); Ok(vec![]) }
        "slotdrop" => { w.slot = None; Ok(vec![]) }
        "look" => {
            let s = unsafe { &mut *slot(w) };
            let a = s.as_opt().map(|l| see(l, false)).unwrap_or_default();
            if s.as_mut().as_opt_mut().map(|l| see(&*l, false)).unwrap_or_default() != a { bad("as_opt and as_opt_mut disagree".into()) }
            Ok(a)
        }
        "makecell" => { let c = t.infallible::<L>(); w.moved = false; let b = Box::emplace(c); let v = see(&*b, false); w.cell = Some(b); Ok(v) }
        "reconstruct" => { let c = t.infallible::<L>(); let b = w.cell.as_mut().unwrap(); unsafe { reconstruct(b.as_mut(), c) }; Ok(see(&**b, false)) }
        "construct" => { let c = t.infallible::<L>(); let v = construct(c); v.look(true, &mut vec![]); let mut v = v; v.me = std::ptr::null(); Ok(see(&v, true)) }
        "acopy" | "aref" | "amov" | "acmov" => {
            name(false);
            let b = w.cell.as_mut().unwrap();
            let raw = t.src;
            let src = unsafe { &*raw };
            match op {
                "acopy" => assign_fixed(b.as_mut(), |p| p.assign(copy(src))),
                "aref" => assign_fixed(b.as_mut(), |p| p.assign(src)),
                "amov" => assign_fixed(b.as_mut(), |p| p.assign(RvalueReference(unsafe { Pin::new_unchecked(&mut *raw) }))),
                _ => assign_fixed(b.as_mut(), |p| p.assign(const_mov!(src))),
            }
            Ok(vec![])
        }
        "dropcell" => { w.cell = None; Ok(vec![]) }
        _ => match ty {
            "L" => place::<L>(op, t),
            "P" => place::<P>(op, t),
            "T" => place::<T>(op, t),
            "Q" => place::<Q>(op, t),
            "S" => place::<Slot<L>>(op, t),
            "M" => place::<ManuallyDrop<L>>(op, t),
            _ => panic!("?{ty}"),
        },
    }
}
// Assignment of an Unpin type constructs a temporary and moves it in.
fn assign_fixed(mut p: Pin<&mut L>, f: impl FnOnce(Pin<&mut L>)) { f(p.as_mut()); p.me = &raw const *p; }

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap();
        let nodes: Vec<(String, String)> = line.split(' ').map(|x| { let (a, b) = x.split_once(':').unwrap(); (a.to_string(), b.to_string()) }).collect();
        let n = nodes.len();
        DROPS.with(|d| *d.borrow_mut() = vec![0; n + 1]);
        BAD.with(|b| b.borrow_mut().clear());
        let src = Box::into_raw(Box::new(L::new(SRC)));
        let mut t = Tree { nodes, at: 0, src };
        let mut w = World { slot: None, cell: None, moved: false };
        let mut out = Vec::new();
        let drops = || DROPS.with(|d| d.borrow().iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","));
        let names = |mut v: Vec<u32>| { v.sort(); v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",") };
        while t.at < n {
            let (op, ty) = t.nodes[t.at].clone();
            t.at += 1;
            let r = match catch_unwind(AssertUnwindSafe(|| step(&op, &ty, &mut t, &mut w))) {
                Ok(Ok(v)) => format!("ok/0/{}", names(v)),
                Ok(Err(e)) => format!("err/{e}/"),
                Err(_) => "panic/0/".to_string(),
            };
            if op == "slotdrop" && r.starts_with("panic") { std::mem::forget(w.slot.take()) }
            let s = w.slot.as_ref().map(|s| see(&**s, false)).unwrap_or_default();
            let c = w.cell.as_ref().map(|c| see(&**c, false)).unwrap_or_default();
            out.push(format!("{r}/{}/{}/{}", drops(), names(s), names(c)));
        }
        let end = catch_unwind(AssertUnwindSafe(|| { drop(w.cell); })).is_err() | catch_unwind(AssertUnwindSafe(|| { drop(w.slot); })).is_err();
        let _ = end;
        let fin = drops();
        drop(unsafe { Box::from_raw(src) });
        if DROPS.with(|d| d.borrow()[0]) != 1 { bad("the source of copies was destroyed".into()) }
        out.push(format!("end/{fin}"));
        println!("=> {}|{}", out.join(";"), BAD.with(|b| b.borrow().join("; ")));
    }
}
