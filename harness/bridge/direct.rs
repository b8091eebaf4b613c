use bridge_rust::{CrubitAbi, Encoder, Decoder, TransmuteAbi, transmute_abi};
pub struct Tk(u64);
impl Drop for Tk { fn drop(&mut self) { unsafe { tk_drop(self.0) } } }
impl Val for Tk { fn make(s: &mut Src) -> Self { unsafe { RUST_OBJECTS += 1; Tk(tk_new(s.v())) } } fn show(&self, o: &mut String) { hex(o, unsafe { tk_val(self.0) }) } }
pub static mut RUST_OBJECTS: i64 = 0;
#[repr(C)] pub struct Big { a: u64, b: u32, c: u16, d: u8, e: u8 }
impl Val for Big {
    fn make(s: &mut Src) -> Self { let v = s.v(); Big { a: v, b: v.wrapping_add(1) as u32, c: v.wrapping_add(2) as u16, d: v.wrapping_add(3) as u8, e: v.wrapping_add(4) as u8 } }
    fn show(&self, o: &mut String) { hex(o, self.a); hex(o, self.b as u64); hex(o, self.c as u64); hex(o, self.d as u64); hex(o, self.e as u64) }
}
pub struct Bx(*mut core::ffi::c_void);
impl Drop for Bx { fn drop(&mut self) { unsafe { box_drop(self.0) } } }
impl Val for Bx { fn make(s: &mut Src) -> Self { unsafe { Bx(box_new(s.v())) } } fn show(&self, o: &mut String) { hex(o, unsafe { box_val(self.0) }) } }
macro_rules! boxed { ($n:ident, $($g:tt)*) => {
    unsafe impl $($g)* {
        type Value = Bx;
        const SIZE: usize = core::mem::size_of::<*mut core::ffi::c_void>();
        fn encode(self, v: Bx, e: &mut Encoder) { let v = core::mem::ManuallyDrop::new(v); transmute_abi().encode(v.0, e) }
        unsafe fn decode(self, d: &mut Decoder) -> Bx { Bx(unsafe { transmute_abi().decode(d) }) }
    } } }
pub struct BoxTk;
pub struct ProtoBridge<T>(pub core::marker::PhantomData<T>);
boxed!(BoxTk, CrubitAbi for BoxTk);
boxed!(ProtoBridge, <T> CrubitAbi for ProtoBridge<T>);
pub struct One<A>(A);
pub struct Two<A, B>(A, B);
impl<A: Val> Val for One<A> { fn make(s: &mut Src) -> Self { One(A::make(s)) } fn show(&self, o: &mut String) { self.0.show(o) } }
impl<A: Val, B: Val> Val for Two<A, B> { fn make(s: &mut Src) -> Self { Two(A::make(s), B::make(s)) } fn show(&self, o: &mut String) { self.0.show(o); self.1.show(o) } }
macro_rules! tuple { ($($t:ident)*) => { #[allow(non_snake_case, unused)] impl<$($t: Val),*> Val for ($($t,)*) { fn make(s: &mut Src) -> Self { ($($t::make(s),)*) } fn show(&self, o: &mut String) { let ($($t,)*) = self; $($t.show(o);)* } } } }
tuple!(); tuple!(A); tuple!(A B); tuple!(A B C); tuple!(A B C D);
pub struct OneAbi<A>(pub A);
pub struct TwoAbi<A, B>(pub A, pub B);
unsafe impl<A: CrubitAbi> CrubitAbi for OneAbi<A> {
    type Value = One<A::Value>;
    const SIZE: usize = A::SIZE;
    fn encode(self, v: Self::Value, e: &mut Encoder) { self.0.encode(v.0, e) }
    unsafe fn decode(self, d: &mut Decoder) -> Self::Value { One(unsafe { self.0.decode(d) }) }
}
unsafe impl<A: CrubitAbi, B: CrubitAbi> CrubitAbi for TwoAbi<A, B> {
    type Value = Two<A::Value, B::Value>;
    const SIZE: usize = A::SIZE + B::SIZE;
    fn encode(self, v: Self::Value, e: &mut Encoder) { self.0.encode(v.0, e); self.1.encode(v.1, e) }
    unsafe fn decode(self, d: &mut Decoder) -> Self::Value { let a = unsafe { self.0.decode(d) }; Two(a, unsafe { self.1.decode(d) }) }
}
pub trait Ops {
    fn size(&self) -> usize;
    fn make(&self, seed: u64, bits: u64) -> *mut u8;
    fn show(&self, p: *mut u8);
    fn encode(&self, p: *mut u8, b: *mut u8);
    fn decode(&self, b: *const u8) -> *mut u8;
    fn drop(&self, p: *mut u8);
}
pub struct For<A>(pub fn() -> A);
impl<A: CrubitAbi> Ops for For<A> where A::Value: Val {
    fn size(&self) -> usize { A::SIZE }
    fn make(&self, seed: u64, bits: u64) -> *mut u8 { Box::into_raw(Box::new(A::Value::make(&mut Src::new(seed, bits)))) as *mut u8 }
    fn show(&self, p: *mut u8) { let mut o = String::new(); unsafe { (*(p as *const A::Value)).show(&mut o); vt_log(o.as_ptr(), o.len()) } }
    fn encode(&self, p: *mut u8, b: *mut u8) { unsafe { let v = *Box::from_raw(p as *mut A::Value); bridge_rust::internal::encode::<A>((self.0)(), b, v) } }
    fn decode(&self, b: *const u8) -> *mut u8 { unsafe { Box::into_raw(Box::new(bridge_rust::internal::decode::<A>((self.0)(), b))) as *mut u8 } }
    fn drop(&self, p: *mut u8) { unsafe { drop(Box::from_raw(p as *mut A::Value)) } }
}
type Table = fn(usize, &mut dyn FnMut(&dyn Ops));
static mut TABLE: Option<Table> = None;
pub fn set_table(t: Table) { unsafe { TABLE = Some(t) } }
fn table<R>(t: usize, f: impl FnOnce(&dyn Ops) -> R) -> R {
    let (mut f, mut r) = (Some(f), None);
    unsafe { TABLE.unwrap()(t, &mut |o| r = Some((f.take().unwrap())(o))) }
    r.unwrap()
}
#[no_mangle] extern "C" fn rs_size(t: usize) -> usize { table(t, |o| o.size()) }
#[no_mangle] extern "C" fn rs_make(t: usize, seed: u64, bits: u64) -> *mut u8 { table(t, |o| o.make(seed, bits)) }
#[no_mangle] extern "C" fn rs_show(t: usize, p: *mut u8) { table(t, |o| o.show(p)) }
#[no_mangle] extern "C" fn rs_encode(t: usize, p: *mut u8, b: *mut u8) { table(t, |o| o.encode(p, b)) }
#[no_mangle] extern "C" fn rs_decode(t: usize, b: *const u8) -> *mut u8 { table(t, |o| o.decode(b)) }
#[no_mangle] extern "C" fn rs_drop(t: usize, p: *mut u8) { table(t, |o| o.drop(p)) }
