//! Element types of every kind: sizes, alignments, niches, with and without destructors.
use crate::case::Case;
use crate::track::{Bare, Payload, Tk, Zt};
use std::fmt::Debug;

/// An element that can be generated and observed. `key` identifies the value.
pub trait Elem: Debug + Clone + PartialEq + 'static {
    type Key: Clone + PartialEq + Debug + 'static;
    const TRACKED: bool = false;
    fn gen(c: &mut Case) -> Self;
    fn key(&self) -> Self::Key;
}

macro_rules! plain {
    ($($t:ty: $k:ty, |$c:ident| $g:expr, |$s:ident| $e:expr;)*) => { $(
        impl Elem for $t {
            type Key = $k;
            fn gen($c: &mut Case) -> $t { $g }
            fn key(&self) -> $k { let $s = self; $e }
        }
    )* }
}

#[derive(Clone, Debug, PartialEq)]
#[repr(align(64))]
pub struct Wide(pub u16);
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Three(pub [u8; 3]);

plain! {
    u8: u8, |c| c.below(256) as u8, |s| *s;
    u16: u16, |c| c.below(1 << 16) as u16, |s| *s;
    u32: u32, |c| c.below(1 << 32) as u32, |s| *s;
    i32: i32, |c| c.int() as i32, |s| *s;
    i64: i64, |c| c.int(), |s| *s;
    u128: u128, |c| (c.full() as u128) << 64 | c.full() as u128, |s| *s;
    f32: u32, |c| f32::from_bits(c.full() as u32), |s| s.to_bits();
    f64: u64, |c| f64::from_bits(c.full()), |s| s.to_bits();
    bool: bool, |c| c.bool(), |s| *s;
    char: char, |c| char::from_u32(c.below(0xd800) as u32).unwrap(), |s| *s;
    (): (), |_c| (), |_s| ();
    String: String, |c| { let n = c.below(3); format!("{}{}", c.below(1000), "x".repeat(n as usize * 20)) }, |s| s.clone();
    Box<u64>: u64, |c| Box::new(c.below(1 << 20)), |s| **s;
    Option<Box<u32>>: Option<u32>, |c| if c.bool() { Some(Box::new(c.below(1 << 20) as u32)) } else { None }, |s| s.as_ref().map(|b| **b);
    Vec<u8>: Vec<u8>, |c| { let n = c.index(4); (0..n).map(|_| c.below(256) as u8).collect() }, |s| s.clone();
    [u64; 5]: [u64; 5], |c| [c.full(), c.below(9), c.full(), c.below(9), c.full()], |s| *s;
    std::num::NonZeroU16: u16, |c| std::num::NonZeroU16::new(c.below(65535) as u16 + 1).unwrap(), |s| s.get();
    &'static str: &'static str, |c| *c.pick(&["a", "b", "cc", "", "ddd", "\u{e9}"]), |s| *s;
    Wide: u16, |c| Wide(c.below(1 << 16) as u16), |s| s.0;
    Three: [u8; 3], |c| Three([c.below(256) as u8, c.below(256) as u8, c.below(256) as u8]), |s| s.0;
    std::rc::Rc<u32>: u32, |c| std::rc::Rc::new(c.below(1 << 20) as u32), |s| **s;
}
impl<P: Payload> Elem for Tk<P> {
    type Key = P;
    const TRACKED: bool = true;
    fn gen(c: &mut Case) -> Tk<P> { Tk::gen(c) }
    fn key(&self) -> P { self.get() }
}
impl<P: Payload> Elem for Bare<P> {
    type Key = P;
    fn gen(c: &mut Case) -> Bare<P> { Bare::new(P::gen(c)) }
    fn key(&self) -> P { self.get() }
}
impl Elem for Zt {
    type Key = ();
    const TRACKED: bool = true;
    fn gen(_: &mut Case) -> Zt { Zt::new() }
    fn key(&self) {}
}
