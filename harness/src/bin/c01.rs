#[path = "../own.rs"]
mod own;
/// Sources may yield more than fits, and panics are injected.
pub const SURPLUS: bool = true;
pub const FAULTS: bool = true;
use harness::*;
use kit::track::Zt;
use own::*;

fn main() {
    let mut u = Units::default();
    u.add_all("vectors Tk", 200, kit::dims_n!(vector, E));
    u.add_all("vectors Zt", 60, kit::dims_n!(vector, Zt));
    u.add_all("vectors String", 60, kit::dims_n!(vector, String));
    u.add_all("vectors Box", 60, kit::dims_few!(vector, Box<u64>));
    u.add_all("vectors Option<Box>", 60, kit::dims_few!(vector, Option<Box<u32>>));
    u.add_all("vectors Rc", 60, kit::dims_few!(vector, std::rc::Rc<u32>));
    u.add_all("arithmetic", 200, kit::dims_n!(arithmetic));
    u.add_all("extremes", 40, kit::dims_n1!(extremes));
    u.add_all("chunks", 40, kit::dims_div!(chunks, E));
    u.add_all("reshape", 20, kit::dims_flat!(reshape));
    u.add_all("matrices", 100, kit::dims_few_pairs!(matrix));
    u.add_all("square matrices", 100, kit::dims_n1!(square));
    u.add_all("determinant, inverse", 60, kit::dims_det!(linear));
    u.add_all("determinant, inverse, cofactor", 200, kit::dims_cof_small!(linear_cof));
    u.add("cross product", 1000, cross);
    u.add("conjugates, diagonals, literals", 1000, odds);
    kit::main(u)
}
