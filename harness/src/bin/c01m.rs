//! C01 for Miri: the same histories on a few shapes.
#[path = "../own.rs"]
mod own;
/// Sources may yield more than fits, and panics are injected.
pub const SURPLUS: bool = true;
pub const FAULTS: bool = true;
use harness::*;
use kit::track::Zt;
use own::*;

fn main() {
    let mut u = Units::default();
    u.add("vectors Tk 0", 20, vector::<E, U0>);
    u.add("vectors Tk 1", 20, vector::<E, U1>);
    u.add("vectors Tk 2", 40, vector::<E, U2>);
    u.add("vectors Tk 3", 40, vector::<E, U3>);
    u.add("vectors Tk 5", 40, vector::<E, U5>);
    u.add("vectors Zt 3", 30, vector::<Zt, U3>);
    u.add("vectors Zt 0", 10, vector::<Zt, U0>);
    u.add("vectors String 4", 40, vector::<String, U4>);
    u.add("vectors Box 3", 40, vector::<Box<u64>, U3>);
    u.add("vectors Option<Box> 2", 30, vector::<Option<Box<u32>>, U2>);
    u.add("vectors Vec<u8> 3", 30, vector::<Vec<u8>, U3>);
    u.add("vectors Rc 2", 20, vector::<std::rc::Rc<u32>, U2>);
    u.add("arithmetic 3", 30, arithmetic::<U3>);
    u.add("arithmetic 1", 15, arithmetic::<U1>);
    u.add("extremes 3", 15, extremes::<U3>);
    u.add("extremes 1", 8, extremes::<U1>);
    u.add("chunks 6 by 2", 15, chunks::<E, U6, U2>);
    u.add("chunks 4 by 4", 10, chunks::<E, U4, U4>);
    u.add("chunks 3 by 1", 10, chunks::<E, U3, U1>);
    u.add("chunks 0 by 2", 5, chunks::<E, U0, U2>);
    u.add("reshape 2x3", 8, reshape::<U2, U3>);
    u.add("reshape 3x1", 8, reshape::<U3, U1>);
    u.add("matrices 2x3", 30, matrix::<U2, U3>);
    u.add("matrices 3x2", 20, matrix::<U3, U2>);
    u.add("matrices 0x2", 10, matrix::<U0, U2>);
    u.add("matrices 2x0", 10, matrix::<U2, U0>);
    u.add("matrices 1x1", 10, matrix::<U1, U1>);
    u.add("square 2", 15, square::<U2>);
    u.add("square 3", 15, square::<U3>);
    u.add("linear 1", 5, linear::<U1>);
    u.add("linear 2", 10, linear_cof::<U2>);
    u.add("linear 3", 10, linear_cof::<U3>);
    u.add("linear 4", 10, linear_cof::<U4>);
    u.add("cross product", 10, cross);
    u.add("conjugates, diagonals, literals", 10, odds);
    kit::main(u)
}
