// Values of bridged types: made from a stream of numbers, shown as text.
extern "C" { fn tk_new(v: u64) -> u64; fn tk_drop(id: u64); fn tk_val(id: u64) -> u64; fn vt_log(p: *const u8, n: usize); fn box_new(v: u64) -> *mut core::ffi::c_void; fn box_val(p: *mut core::ffi::c_void) -> u64; fn box_drop(p: *mut core::ffi::c_void); }
pub struct Src { seed: u64, bits: u64, i: u64 }
impl Src {
    fn new(seed: u64, bits: u64) -> Src { Src { seed, bits, i: 0 } }
    fn bit(&mut self) -> bool { let b = self.bits & 1 == 1; self.bits >>= 1; b }
    fn v(&mut self) -> u64 {
        self.i += 1;
        if self.seed == 0 { return 0 }
        if self.seed == 1 { return u64::MAX }
        let mut z = (self.seed * 1000 + self.i).wrapping_mul(0x9E3779B97F4A7C15);
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
}
pub trait Val { fn make(s: &mut Src) -> Self; fn show(&self, o: &mut String); }
fn hex(o: &mut String, v: u64) { *o += &format!("{v:x};") }
macro_rules! int { ($($t:ty, $u:ty);*) => { $(impl Val for $t { fn make(s: &mut Src) -> Self { s.v() as $t } fn show(&self, o: &mut String) { hex(o, *self as $u as u64) } })* } }
int!(u8, u8; i8, u8; u16, u16; i16, u16; u32, u32; i32, u32; u64, u64; i64, u64; usize, usize; isize, usize);
impl Val for f32 { fn make(s: &mut Src) -> Self { f32::from_bits(s.v() as u32) } fn show(&self, o: &mut String) { hex(o, self.to_bits() as u64) } }
impl Val for f64 { fn make(s: &mut Src) -> Self { f64::from_bits(s.v()) } fn show(&self, o: &mut String) { hex(o, self.to_bits()) } }
impl Val for bool { fn make(s: &mut Src) -> Self { s.v() & 1 == 1 } fn show(&self, o: &mut String) { hex(o, *self as u8 as u64) } }
impl Val for char { fn make(s: &mut Src) -> Self { let c = (s.v() % 0x10F800) as u32; char::from_u32(if c >= 0xD800 { c + 0x800 } else { c }).unwrap() } fn show(&self, o: &mut String) { hex(o, *self as u64) } }
impl<T> Val for *const T { fn make(s: &mut Src) -> Self { s.v() as *const T } fn show(&self, o: &mut String) { hex(o, *self as u64) } }
impl<T> Val for *mut T { fn make(s: &mut Src) -> Self { s.v() as *mut T } fn show(&self, o: &mut String) { hex(o, *self as u64) } }
impl<T> Val for *const [T] { fn make(s: &mut Src) -> Self { let v = s.v(); core::ptr::slice_from_raw_parts(((v | 8) & !7) as *const T, (v >> 40) as usize) } fn show(&self, o: &mut String) { hex(o, if self.len() == 0 { 0 } else { *self as *const T as u64 }); hex(o, self.len() as u64) } }
impl<T> Val for *mut [T] { fn make(s: &mut Src) -> Self { let v = s.v(); core::ptr::slice_from_raw_parts_mut(((v | 8) & !7) as *mut T, (v >> 40) as usize) } fn show(&self, o: &mut String) { hex(o, if self.len() == 0 { 0 } else { *self as *mut T as u64 }); hex(o, self.len() as u64) } }
impl<T: Val> Val for Option<T> {
    fn make(s: &mut Src) -> Self { if s.bit() { Some(T::make(s)) } else { None } }
    fn show(&self, o: &mut String) { match self { Some(x) => { *o += "S"; x.show(o) } None => *o += "N" } }
}
