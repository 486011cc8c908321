//! Instrumented element types. Every `Tk` instance is registered in a per-thread ledger, which
//! notices double drops, uses after drop, garbage and leaks, and can inject a panic at the n-th
//! clone / operator / callback / drop.
use crate::case::{mix, Case};
use num::{One, Zero};
use std::cell::RefCell;
use std::fmt::{self, Debug, Display};
use std::ops::*;

pub const F_CLONE: u8 = 1;
pub const F_OP: u8 = 2;
pub const F_CALL: u8 = 4;
pub const F_DROP: u8 = 8;

#[derive(Default)]
struct Ledger {
    state: Vec<u8>, // 1 live, 2 dropped
    live: usize,
    errors: Vec<String>,
    fault: Option<(u8, u64)>,
    faulted: bool,
    zst_live: i64,
    zst_made: u64,
}

thread_local! { static L: RefCell<Ledger> = RefCell::new(Ledger::default()); }

/// Forget everything; call at the start of a case.
pub fn reset() {
    L.with(|l| {
        let mut l = l.borrow_mut();
        l.state.clear();
        l.live = 0;
        l.errors.clear();
        l.fault = None;
        l.faulted = false;
        l.zst_live = 0;
        l.zst_made = 0;
    })
}
/// Panic at the `n`-th (0-based) fault point of the kinds in `mask`.
pub fn arm(mask: u8, n: u64) {
    L.with(|l| l.borrow_mut().fault = Some((mask, n)))
}
pub fn disarm() {
    L.with(|l| l.borrow_mut().fault = None)
}
/// Did an injected fault fire since `reset`?
pub fn faulted() -> bool {
    L.with(|l| l.borrow().faulted)
}
pub fn live() -> usize {
    L.with(|l| l.borrow().live)
}
pub fn zst_live() -> i64 {
    L.with(|l| l.borrow().zst_live)
}
pub fn created() -> usize {
    L.with(|l| l.borrow().state.len())
}
/// End of a case: no misuse, and no leak unless allowed.
pub fn finish(leak_ok: bool) -> Result<(), String> {
    L.with(|l| {
        let l = l.borrow();
        if let Some(e) = l.errors.first() {
            return Err(format!("ownership violation: {} ({} in total)", e, l.errors.len()));
        }
        if !leak_ok && l.live != 0 {
            return Err(format!("{} element(s) leaked", l.live));
        }
        if l.zst_live < 0 || (!leak_ok && l.zst_live != 0) {
            return Err(format!("zero-sized elements created minus dropped = {}", l.zst_live));
        }
        Ok(())
    })
}
/// Misuse noticed so far (without the leak check).
pub fn check() -> Result<(), String> {
    L.with(|l| match l.borrow().errors.first() {
        Some(e) => Err(format!("ownership violation: {}", e)),
        None => Ok(()),
    })
}

/// Fire an injected fault here and now.
pub fn trigger() -> ! {
    L.with(|l| l.borrow_mut().faulted = true);
    panic!("injected fault")
}

/// A place where an injected fault may fire.
pub fn fault_point(kind: u8) {
    let fire = L.with(|l| {
        let mut l = l.borrow_mut();
        match l.fault {
            Some((m, n)) if m & kind != 0 => {
                if n == 0 {
                    l.fault = None;
                    l.faulted = true;
                    true
                } else {
                    l.fault = Some((m, n - 1));
                    false
                }
            }
            _ => false,
        }
    });
    if fire {
        panic!("injected fault");
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Op { Add, Sub, Mul, Div }

pub trait Payload: Copy + PartialEq + Debug + Send + Sync + 'static {
    fn bin(op: Op, a: Self, b: Self) -> Self;
    fn neg(a: Self) -> Self;
    fn zero() -> Self;
    fn one() -> Self;
    fn gen(c: &mut Case) -> Self;
}

/// Symbolic values: every operation gives a fresh hash of operator and operands in order.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
pub struct Sym(pub u64);
impl Debug for Sym {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "s{:x}", self.0) }
}
impl Payload for Sym {
    fn bin(op: Op, a: Sym, b: Sym) -> Sym { Sym(mix(mix(op as u64 + 11, a.0), b.0)) }
    fn neg(a: Sym) -> Sym { Sym(mix(99, a.0)) }
    fn zero() -> Sym { Sym(0) }
    fn one() -> Sym { Sym(1) }
    fn gen(c: &mut Case) -> Sym { Sym(c.below(1 << 20)) }
}

/// Wrapping integers with an order.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
pub struct Int(pub i64);
impl Debug for Int {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "{}", self.0) }
}
impl Payload for Int {
    fn bin(op: Op, a: Int, b: Int) -> Int {
        Int(match op {
            Op::Add => a.0.wrapping_add(b.0),
            Op::Sub => a.0.wrapping_sub(b.0),
            Op::Mul => a.0.wrapping_mul(b.0),
            Op::Div => if b.0 == 0 { 0 } else { a.0.wrapping_div(b.0) },
        })
    }
    fn neg(a: Int) -> Int { Int(a.0.wrapping_neg()) }
    fn zero() -> Int { Int(0) }
    fn one() -> Int { Int(1) }
    fn gen(c: &mut Case) -> Int { Int(c.int()) }
}

/// A non-commutative ring: 2x2 matrices over Z/65521.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct Ring(pub [u32; 4]);
const Q: u64 = 65521;
impl Ring {
    pub fn add(a: Ring, b: Ring) -> Ring { Ring([0, 1, 2, 3].map(|i| ((a.0[i] as u64 + b.0[i] as u64) % Q) as u32)) }
    pub fn sub(a: Ring, b: Ring) -> Ring { Ring([0, 1, 2, 3].map(|i| ((a.0[i] as u64 + Q - b.0[i] as u64) % Q) as u32)) }
    pub fn mul(a: Ring, b: Ring) -> Ring {
        let (x, y) = (a.0.map(|v| v as u64), b.0.map(|v| v as u64));
        Ring([
            ((x[0] * y[0] + x[1] * y[2]) % Q) as u32,
            ((x[0] * y[1] + x[1] * y[3]) % Q) as u32,
            ((x[2] * y[0] + x[3] * y[2]) % Q) as u32,
            ((x[2] * y[1] + x[3] * y[3]) % Q) as u32,
        ])
    }
}
impl Payload for Ring {
    fn bin(op: Op, a: Ring, b: Ring) -> Ring {
        match op {
            Op::Add => Ring::add(a, b),
            Op::Sub => Ring::sub(a, b),
            Op::Mul => Ring::mul(a, b),
            Op::Div => Ring(a.0.map(|x| (x * 7 + 1) % Q as u32)), // not a division; only for tracking
        }
    }
    fn neg(a: Ring) -> Ring { Ring::sub(Ring([0; 4]), a) }
    fn zero() -> Ring { Ring([0; 4]) }
    fn one() -> Ring { Ring([1, 0, 0, 1]) }
    fn gen(c: &mut Case) -> Ring {
        match c.below(8) {
            0 => Ring([0; 4]),
            1 => Ring([1, 0, 0, 1]),
            2 => Ring([0, 1, 0, 0]),
            3 => Ring([0, 0, 1, 0]),
            _ => {
                let v = c.full();
                Ring([0, 1, 2, 3].map(|i| ((v >> (16 * i)) & 0xffff) as u32 % Q as u32))
            }
        }
    }
}

const MAGIC: u32 = 0x5ac3_91e7;

pub struct Tk<P: Payload> {
    id: u32,
    chk: u32,
    val: P,
}

impl<P: Payload> Tk<P> {
    pub fn new(val: P) -> Tk<P> {
        let id = L.with(|l| {
            let mut l = l.borrow_mut();
            l.state.push(1);
            l.live += 1;
            (l.state.len() - 1) as u32
        });
        Tk { id, chk: id ^ MAGIC, val }
    }
    pub fn gen(c: &mut Case) -> Tk<P> { Tk::new(P::gen(c)) }
    /// The value, after checking that the element is alive.
    pub fn get(&self) -> P {
        self.touch("read");
        self.val
    }
    fn touch(&self, what: &str) {
        let (id, chk) = (self.id, self.chk);
        L.with(|l| {
            let mut l = l.borrow_mut();
            let e = if chk != id ^ MAGIC || id as usize >= l.state.len() {
                format!("{} of memory that holds no element", what)
            } else if l.state[id as usize] != 1 {
                format!("{} of element #{} after it was dropped", what, id)
            } else {
                return;
            };
            if l.errors.len() < 100 { l.errors.push(e) } else if l.errors.len() < 1_000_000 { l.errors.push(String::new()) }
        })
    }
}

impl<P: Payload> Drop for Tk<P> {
    fn drop(&mut self) {
        self.touch("drop");
        let id = self.id;
        let fire = L.with(|l| {
            let mut l = l.borrow_mut();
            if self.chk == id ^ MAGIC && (id as usize) < l.state.len() && l.state[id as usize] == 1 {
                l.state[id as usize] = 2;
                l.live -= 1;
                true
            } else {
                false
            }
        });
        if fire && !std::thread::panicking() {
            fault_point(F_DROP);
        }
    }
}

impl<P: Payload> Clone for Tk<P> {
    fn clone(&self) -> Tk<P> {
        self.touch("clone");
        fault_point(F_CLONE);
        Tk::new(self.val)
    }
}
impl<P: Payload> PartialEq for Tk<P> {
    fn eq(&self, o: &Tk<P>) -> bool {
        fault_point(F_OP);
        self.get() == o.get()
    }
}
impl<P: Payload + Eq> Eq for Tk<P> {}
impl<P: Payload + PartialOrd> PartialOrd for Tk<P> {
    fn partial_cmp(&self, o: &Tk<P>) -> Option<std::cmp::Ordering> {
        fault_point(F_OP);
        self.get().partial_cmp(&o.get())
    }
}
impl<P: Payload + Ord> Ord for Tk<P> {
    fn cmp(&self, o: &Tk<P>) -> std::cmp::Ordering {
        fault_point(F_OP);
        self.get().cmp(&o.get())
    }
}
impl<P: Payload> Debug for Tk<P> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { fault_point(F_OP); write!(f, "{:?}", self.get()) }
}
impl<P: Payload> Display for Tk<P> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { fault_point(F_OP); write!(f, "{:?}", self.get()) }
}
impl<P: Payload> Default for Tk<P> {
    fn default() -> Tk<P> { fault_point(F_CALL); Tk::new(P::zero()) }
}

fn bin<P: Payload>(op: Op, a: &Tk<P>, b: &Tk<P>) -> Tk<P> {
    fault_point(F_OP);
    Tk::new(P::bin(op, a.get(), b.get()))
}
macro_rules! ops {
    ($ty:ident, $bin:ident; $($t:ident $f:ident $ta:ident $fa:ident;)*) => { $(
        impl<P: Payload> $t<$ty<P>> for $ty<P> { type Output = $ty<P>; fn $f(self, o: $ty<P>) -> $ty<P> { $bin(Op::$t, &self, &o) } }
        impl<'a, P: Payload> $t<&'a $ty<P>> for $ty<P> { type Output = $ty<P>; fn $f(self, o: &'a $ty<P>) -> $ty<P> { $bin(Op::$t, &self, o) } }
        impl<'a, P: Payload> $t<$ty<P>> for &'a $ty<P> { type Output = $ty<P>; fn $f(self, o: $ty<P>) -> $ty<P> { $bin(Op::$t, self, &o) } }
        impl<'a, 'b, P: Payload> $t<&'a $ty<P>> for &'b $ty<P> { type Output = $ty<P>; fn $f(self, o: &'a $ty<P>) -> $ty<P> { $bin(Op::$t, self, o) } }
        impl<P: Payload> $ta<$ty<P>> for $ty<P> { fn $fa(&mut self, o: $ty<P>) { fault_point(F_OP); self.val = P::bin(Op::$t, self.get(), o.get()); } }
        impl<'a, P: Payload> $ta<&'a $ty<P>> for $ty<P> { fn $fa(&mut self, o: &'a $ty<P>) { fault_point(F_OP); self.val = P::bin(Op::$t, self.get(), o.get()); } }
    )* }
}
ops! { Tk, bin; Add add AddAssign add_assign; Sub sub SubAssign sub_assign; Mul mul MulAssign mul_assign; Div div DivAssign div_assign; }

macro_rules! numeric {
    ($ty:ident) => {
        impl<P: Payload> Neg for $ty<P> {
            type Output = $ty<P>;
            fn neg(self) -> $ty<P> { fault_point(F_OP); $ty::new(P::neg(self.get())) }
        }
        impl<P: Payload> Zero for $ty<P> {
            fn zero() -> $ty<P> { fault_point(F_OP); $ty::new(P::zero()) }
            fn is_zero(&self) -> bool { fault_point(F_OP); self.get() == P::zero() }
        }
        impl<P: Payload> One for $ty<P> {
            fn one() -> $ty<P> { fault_point(F_OP); $ty::new(P::one()) }
        }
        impl<P: Payload + num::Bounded> num::Bounded for $ty<P> {
            fn min_value() -> $ty<P> { fault_point(F_CALL); $ty::new(P::min_value()) }
            fn max_value() -> $ty<P> { fault_point(F_CALL); $ty::new(P::max_value()) }
        }
        // so that fields can go through determinant / cofactor / inverse
        impl<P: Payload> Rem<$ty<P>> for $ty<P> {
            type Output = $ty<P>;
            fn rem(self, _: $ty<P>) -> $ty<P> { $ty::new(P::zero()) }
        }
        impl<P: Payload> num::Num for $ty<P> {
            type FromStrRadixErr = ();
            fn from_str_radix(_: &str, _: u32) -> Result<$ty<P>, ()> { Err(()) }
        }
        impl<P: Payload> num::Signed for $ty<P> {
            fn abs(&self) -> $ty<P> { self.clone() }
            fn abs_sub(&self, o: &$ty<P>) -> $ty<P> { self - o }
            fn signum(&self) -> $ty<P> { if self.is_zero() { $ty::zero() } else { $ty::one() } }
            fn is_positive(&self) -> bool { !self.is_zero() }
            fn is_negative(&self) -> bool { false }
        }
    }
}
numeric!(Tk);
impl num::Bounded for Int {
    fn min_value() -> Int { Int(i64::MIN) }
    fn max_value() -> Int { Int(i64::MAX) }
}
impl num::Bounded for Sym {
    fn min_value() -> Sym { Sym(3) }
    fn max_value() -> Sym { Sym(u64::MAX) }
}

/// The same arithmetic without the ledger: cheap, and `Copy`.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
pub struct Bare<P: Payload> { val: P }
impl<P: Payload> Bare<P> {
    pub fn new(val: P) -> Bare<P> { Bare { val } }
    pub fn get(&self) -> P { self.val }
}
impl<P: Payload> Debug for Bare<P> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "{:?}", self.val) }
}
impl<P: Payload> Default for Bare<P> {
    fn default() -> Bare<P> { Bare::new(P::zero()) }
}
fn bare<P: Payload>(op: Op, a: &Bare<P>, b: &Bare<P>) -> Bare<P> { Bare { val: P::bin(op, a.val, b.val) } }
ops! { Bare, bare; Add add AddAssign add_assign; Sub sub SubAssign sub_assign; Mul mul MulAssign mul_assign; Div div DivAssign div_assign; }
numeric!(Bare);

/// A zero-sized element with a destructor; only the number of live ones is observable.
pub struct Zt(());
impl Zt {
    pub fn new() -> Zt {
        L.with(|l| { let mut l = l.borrow_mut(); l.zst_live += 1; l.zst_made += 1; });
        Zt(())
    }
}
impl Clone for Zt { fn clone(&self) -> Zt { fault_point(F_CLONE); Zt::new() } }
impl Default for Zt { fn default() -> Zt { Zt::new() } }
impl Drop for Zt { fn drop(&mut self) { L.with(|l| l.borrow_mut().zst_live -= 1) } }
impl Debug for Zt { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "z") } }
impl PartialEq for Zt { fn eq(&self, _: &Zt) -> bool { true } }
