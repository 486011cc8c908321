//! Generated by gen_dims.py. Each macro expands to an array of (name, unit function).

/// shapes with an edge-case dimension or square
#[macro_export]
macro_rules! dims_spread_pairs {
    ($f:ident) => { &[
        ("0x0", $f::<U0, U0> as $crate::runner::UnitFn),
        ("0x1", $f::<U0, U1> as $crate::runner::UnitFn),
        ("0x2", $f::<U0, U2> as $crate::runner::UnitFn),
        ("0x3", $f::<U0, U3> as $crate::runner::UnitFn),
        ("0x4", $f::<U0, U4> as $crate::runner::UnitFn),
        ("0x5", $f::<U0, U5> as $crate::runner::UnitFn),
        ("0x7", $f::<U0, U7> as $crate::runner::UnitFn),
        ("0x8", $f::<U0, U8> as $crate::runner::UnitFn),
        ("0x13", $f::<U0, U13> as $crate::runner::UnitFn),
        ("0x16", $f::<U0, U16> as $crate::runner::UnitFn),
        ("0x17", $f::<U0, U17> as $crate::runner::UnitFn),
        ("0x26", $f::<U0, U26> as $crate::runner::UnitFn),
        ("0x31", $f::<U0, U31> as $crate::runner::UnitFn),
        ("0x32", $f::<U0, U32> as $crate::runner::UnitFn),
        ("1x0", $f::<U1, U0> as $crate::runner::UnitFn),
        ("1x1", $f::<U1, U1> as $crate::runner::UnitFn),
        ("1x2", $f::<U1, U2> as $crate::runner::UnitFn),
        ("1x3", $f::<U1, U3> as $crate::runner::UnitFn),
        ("1x4", $f::<U1, U4> as $crate::runner::UnitFn),
        ("1x5", $f::<U1, U5> as $crate::runner::UnitFn),
        ("1x6", $f::<U1, U6> as $crate::runner::UnitFn),
        ("1x7", $f::<U1, U7> as $crate::runner::UnitFn),
        ("1x8", $f::<U1, U8> as $crate::runner::UnitFn),
        ("1x9", $f::<U1, U9> as $crate::runner::UnitFn),
        ("1x10", $f::<U1, U10> as $crate::runner::UnitFn),
        ("1x11", $f::<U1, U11> as $crate::runner::UnitFn),
        ("1x12", $f::<U1, U12> as $crate::runner::UnitFn),
        ("1x13", $f::<U1, U13> as $crate::runner::UnitFn),
        ("1x14", $f::<U1, U14> as $crate::runner::UnitFn),
        ("1x15", $f::<U1, U15> as $crate::runner::UnitFn),
        ("1x16", $f::<U1, U16> as $crate::runner::UnitFn),
        ("1x17", $f::<U1, U17> as $crate::runner::UnitFn),
        ("1x18", $f::<U1, U18> as $crate::runner::UnitFn),
        ("1x19", $f::<U1, U19> as $crate::runner::UnitFn),
        ("1x20", $f::<U1, U20> as $crate::runner::UnitFn),
        ("1x21", $f::<U1, U21> as $crate::runner::UnitFn),
        ("1x22", $f::<U1, U22> as $crate::runner::UnitFn),
        ("1x23", $f::<U1, U23> as $crate::runner::UnitFn),
        ("1x24", $f::<U1, U24> as $crate::runner::UnitFn),
        ("1x25", $f::<U1, U25> as $crate::runner::UnitFn),
        ("1x26", $f::<U1, U26> as $crate::runner::UnitFn),
        ("1x27", $f::<U1, U27> as $crate::runner::UnitFn),
        ("1x28", $f::<U1, U28> as $crate::runner::UnitFn),
        ("1x29", $f::<U1, U29> as $crate::runner::UnitFn),
        ("1x30", $f::<U1, U30> as $crate::runner::UnitFn),
        ("1x31", $f::<U1, U31> as $crate::runner::UnitFn),
        ("1x32", $f::<U1, U32> as $crate::runner::UnitFn),
        ("2x0", $f::<U2, U0> as $crate::runner::UnitFn),
        ("2x1", $f::<U2, U1> as $crate::runner::UnitFn),
        ("2x2", $f::<U2, U2> as $crate::runner::UnitFn),
        ("2x3", $f::<U2, U3> as $crate::runner::UnitFn),
        ("2x4", $f::<U2, U4> as $crate::runner::UnitFn),
        ("2x5", $f::<U2, U5> as $crate::runner::UnitFn),
        ("2x7", $f::<U2, U7> as $crate::runner::UnitFn),
        ("2x8", $f::<U2, U8> as $crate::runner::UnitFn),
        ("2x16", $f::<U2, U16> as $crate::runner::UnitFn),
        ("2x17", $f::<U2, U17> as $crate::runner::UnitFn),
        ("2x30", $f::<U2, U30> as $crate::runner::UnitFn),
        ("2x31", $f::<U2, U31> as $crate::runner::UnitFn),
        ("2x32", $f::<U2, U32> as $crate::runner::UnitFn),
        ("3x0", $f::<U3, U0> as $crate::runner::UnitFn),
        ("3x1", $f::<U3, U1> as $crate::runner::UnitFn),
        ("3x2", $f::<U3, U2> as $crate::runner::UnitFn),
        ("3x3", $f::<U3, U3> as $crate::runner::UnitFn),
        ("3x4", $f::<U3, U4> as $crate::runner::UnitFn),
        ("3x5", $f::<U3, U5> as $crate::runner::UnitFn),
        ("3x6", $f::<U3, U6> as $crate::runner::UnitFn),
        ("3x7", $f::<U3, U7> as $crate::runner::UnitFn),
        ("3x8", $f::<U3, U8> as $crate::runner::UnitFn),
        ("3x16", $f::<U3, U16> as $crate::runner::UnitFn),
        ("3x17", $f::<U3, U17> as $crate::runner::UnitFn),
        ("3x19", $f::<U3, U19> as $crate::runner::UnitFn),
        ("3x31", $f::<U3, U31> as $crate::runner::UnitFn),
        ("3x32", $f::<U3, U32> as $crate::runner::UnitFn),
        ("4x0", $f::<U4, U0> as $crate::runner::UnitFn),
        ("4x1", $f::<U4, U1> as $crate::runner::UnitFn),
        ("4x2", $f::<U4, U2> as $crate::runner::UnitFn),
        ("4x3", $f::<U4, U3> as $crate::runner::UnitFn),
        ("4x4", $f::<U4, U4> as $crate::runner::UnitFn),
        ("4x5", $f::<U4, U5> as $crate::runner::UnitFn),
        ("4x7", $f::<U4, U7> as $crate::runner::UnitFn),
        ("4x8", $f::<U4, U8> as $crate::runner::UnitFn),
        ("4x16", $f::<U4, U16> as $crate::runner::UnitFn),
        ("4x17", $f::<U4, U17> as $crate::runner::UnitFn),
        ("4x21", $f::<U4, U21> as $crate::runner::UnitFn),
        ("4x31", $f::<U4, U31> as $crate::runner::UnitFn),
        ("4x32", $f::<U4, U32> as $crate::runner::UnitFn),
        ("5x0", $f::<U5, U0> as $crate::runner::UnitFn),
        ("5x1", $f::<U5, U1> as $crate::runner::UnitFn),
        ("5x2", $f::<U5, U2> as $crate::runner::UnitFn),
        ("5x3", $f::<U5, U3> as $crate::runner::UnitFn),
        ("5x4", $f::<U5, U4> as $crate::runner::UnitFn),
        ("5x5", $f::<U5, U5> as $crate::runner::UnitFn),
        ("5x7", $f::<U5, U7> as $crate::runner::UnitFn),
        ("5x8", $f::<U5, U8> as $crate::runner::UnitFn),
        ("5x10", $f::<U5, U10> as $crate::runner::UnitFn),
        ("5x16", $f::<U5, U16> as $crate::runner::UnitFn),
        ("5x17", $f::<U5, U17> as $crate::runner::UnitFn),
        ("5x23", $f::<U5, U23> as $crate::runner::UnitFn),
        ("5x31", $f::<U5, U31> as $crate::runner::UnitFn),
        ("5x32", $f::<U5, U32> as $crate::runner::UnitFn),
        ("6x1", $f::<U6, U1> as $crate::runner::UnitFn),
        ("6x6", $f::<U6, U6> as $crate::runner::UnitFn),
        ("6x12", $f::<U6, U12> as $crate::runner::UnitFn),
        ("6x25", $f::<U6, U25> as $crate::runner::UnitFn),
        ("7x0", $f::<U7, U0> as $crate::runner::UnitFn),
        ("7x1", $f::<U7, U1> as $crate::runner::UnitFn),
        ("7x2", $f::<U7, U2> as $crate::runner::UnitFn),
        ("7x3", $f::<U7, U3> as $crate::runner::UnitFn),
        ("7x4", $f::<U7, U4> as $crate::runner::UnitFn),
        ("7x5", $f::<U7, U5> as $crate::runner::UnitFn),
        ("7x7", $f::<U7, U7> as $crate::runner::UnitFn),
        ("7x8", $f::<U7, U8> as $crate::runner::UnitFn),
        ("7x14", $f::<U7, U14> as $crate::runner::UnitFn),
        ("7x16", $f::<U7, U16> as $crate::runner::UnitFn),
        ("7x17", $f::<U7, U17> as $crate::runner::UnitFn),
        ("7x27", $f::<U7, U27> as $crate::runner::UnitFn),
        ("7x31", $f::<U7, U31> as $crate::runner::UnitFn),
        ("7x32", $f::<U7, U32> as $crate::runner::UnitFn),
        ("8x0", $f::<U8, U0> as $crate::runner::UnitFn),
        ("8x1", $f::<U8, U1> as $crate::runner::UnitFn),
        ("8x2", $f::<U8, U2> as $crate::runner::UnitFn),
        ("8x3", $f::<U8, U3> as $crate::runner::UnitFn),
        ("8x4", $f::<U8, U4> as $crate::runner::UnitFn),
        ("8x5", $f::<U8, U5> as $crate::runner::UnitFn),
        ("8x7", $f::<U8, U7> as $crate::runner::UnitFn),
        ("8x8", $f::<U8, U8> as $crate::runner::UnitFn),
        ("8x16", $f::<U8, U16> as $crate::runner::UnitFn),
        ("8x17", $f::<U8, U17> as $crate::runner::UnitFn),
        ("8x29", $f::<U8, U29> as $crate::runner::UnitFn),
        ("8x31", $f::<U8, U31> as $crate::runner::UnitFn),
        ("8x32", $f::<U8, U32> as $crate::runner::UnitFn),
        ("9x1", $f::<U9, U1> as $crate::runner::UnitFn),
        ("9x5", $f::<U9, U5> as $crate::runner::UnitFn),
        ("9x9", $f::<U9, U9> as $crate::runner::UnitFn),
        ("9x18", $f::<U9, U18> as $crate::runner::UnitFn),
        ("9x31", $f::<U9, U31> as $crate::runner::UnitFn),
        ("10x1", $f::<U10, U1> as $crate::runner::UnitFn),
        ("10x7", $f::<U10, U7> as $crate::runner::UnitFn),
        ("10x10", $f::<U10, U10> as $crate::runner::UnitFn),
        ("10x20", $f::<U10, U20> as $crate::runner::UnitFn),
        ("11x1", $f::<U11, U1> as $crate::runner::UnitFn),
        ("11x9", $f::<U11, U9> as $crate::runner::UnitFn),
        ("11x11", $f::<U11, U11> as $crate::runner::UnitFn),
        ("11x22", $f::<U11, U22> as $crate::runner::UnitFn),
        ("12x1", $f::<U12, U1> as $crate::runner::UnitFn),
        ("12x11", $f::<U12, U11> as $crate::runner::UnitFn),
        ("12x12", $f::<U12, U12> as $crate::runner::UnitFn),
        ("12x24", $f::<U12, U24> as $crate::runner::UnitFn),
        ("13x0", $f::<U13, U0> as $crate::runner::UnitFn),
        ("13x1", $f::<U13, U1> as $crate::runner::UnitFn),
        ("13x13", $f::<U13, U13> as $crate::runner::UnitFn),
        ("13x26", $f::<U13, U26> as $crate::runner::UnitFn),
        ("14x1", $f::<U14, U1> as $crate::runner::UnitFn),
        ("14x2", $f::<U14, U2> as $crate::runner::UnitFn),
        ("14x14", $f::<U14, U14> as $crate::runner::UnitFn),
        ("14x15", $f::<U14, U15> as $crate::runner::UnitFn),
        ("14x28", $f::<U14, U28> as $crate::runner::UnitFn),
        ("15x1", $f::<U15, U1> as $crate::runner::UnitFn),
        ("15x4", $f::<U15, U4> as $crate::runner::UnitFn),
        ("15x15", $f::<U15, U15> as $crate::runner::UnitFn),
        ("15x17", $f::<U15, U17> as $crate::runner::UnitFn),
        ("15x30", $f::<U15, U30> as $crate::runner::UnitFn),
        ("16x0", $f::<U16, U0> as $crate::runner::UnitFn),
        ("16x1", $f::<U16, U1> as $crate::runner::UnitFn),
        ("16x2", $f::<U16, U2> as $crate::runner::UnitFn),
        ("16x3", $f::<U16, U3> as $crate::runner::UnitFn),
        ("16x4", $f::<U16, U4> as $crate::runner::UnitFn),
        ("16x5", $f::<U16, U5> as $crate::runner::UnitFn),
        ("16x6", $f::<U16, U6> as $crate::runner::UnitFn),
        ("16x7", $f::<U16, U7> as $crate::runner::UnitFn),
        ("16x8", $f::<U16, U8> as $crate::runner::UnitFn),
        ("16x16", $f::<U16, U16> as $crate::runner::UnitFn),
        ("16x17", $f::<U16, U17> as $crate::runner::UnitFn),
        ("16x19", $f::<U16, U19> as $crate::runner::UnitFn),
        ("16x31", $f::<U16, U31> as $crate::runner::UnitFn),
        ("16x32", $f::<U16, U32> as $crate::runner::UnitFn),
        ("17x0", $f::<U17, U0> as $crate::runner::UnitFn),
        ("17x1", $f::<U17, U1> as $crate::runner::UnitFn),
        ("17x2", $f::<U17, U2> as $crate::runner::UnitFn),
        ("17x3", $f::<U17, U3> as $crate::runner::UnitFn),
        ("17x4", $f::<U17, U4> as $crate::runner::UnitFn),
        ("17x5", $f::<U17, U5> as $crate::runner::UnitFn),
        ("17x7", $f::<U17, U7> as $crate::runner::UnitFn),
        ("17x8", $f::<U17, U8> as $crate::runner::UnitFn),
        ("17x16", $f::<U17, U16> as $crate::runner::UnitFn),
        ("17x17", $f::<U17, U17> as $crate::runner::UnitFn),
        ("17x21", $f::<U17, U21> as $crate::runner::UnitFn),
        ("17x31", $f::<U17, U31> as $crate::runner::UnitFn),
        ("17x32", $f::<U17, U32> as $crate::runner::UnitFn),
        ("18x1", $f::<U18, U1> as $crate::runner::UnitFn),
        ("18x10", $f::<U18, U10> as $crate::runner::UnitFn),
        ("18x18", $f::<U18, U18> as $crate::runner::UnitFn),
        ("18x23", $f::<U18, U23> as $crate::runner::UnitFn),
        ("19x1", $f::<U19, U1> as $crate::runner::UnitFn),
        ("19x12", $f::<U19, U12> as $crate::runner::UnitFn),
        ("19x19", $f::<U19, U19> as $crate::runner::UnitFn),
        ("19x25", $f::<U19, U25> as $crate::runner::UnitFn),
        ("20x1", $f::<U20, U1> as $crate::runner::UnitFn),
        ("20x14", $f::<U20, U14> as $crate::runner::UnitFn),
        ("20x20", $f::<U20, U20> as $crate::runner::UnitFn),
        ("20x27", $f::<U20, U27> as $crate::runner::UnitFn),
        ("21x1", $f::<U21, U1> as $crate::runner::UnitFn),
        ("21x3", $f::<U21, U3> as $crate::runner::UnitFn),
        ("21x16", $f::<U21, U16> as $crate::runner::UnitFn),
        ("21x21", $f::<U21, U21> as $crate::runner::UnitFn),
        ("21x29", $f::<U21, U29> as $crate::runner::UnitFn),
        ("22x1", $f::<U22, U1> as $crate::runner::UnitFn),
        ("22x5", $f::<U22, U5> as $crate::runner::UnitFn),
        ("22x18", $f::<U22, U18> as $crate::runner::UnitFn),
        ("22x22", $f::<U22, U22> as $crate::runner::UnitFn),
        ("22x31", $f::<U22, U31> as $crate::runner::UnitFn),
        ("23x1", $f::<U23, U1> as $crate::runner::UnitFn),
        ("23x7", $f::<U23, U7> as $crate::runner::UnitFn),
        ("23x20", $f::<U23, U20> as $crate::runner::UnitFn),
        ("23x23", $f::<U23, U23> as $crate::runner::UnitFn),
        ("24x1", $f::<U24, U1> as $crate::runner::UnitFn),
        ("24x9", $f::<U24, U9> as $crate::runner::UnitFn),
        ("24x22", $f::<U24, U22> as $crate::runner::UnitFn),
        ("24x24", $f::<U24, U24> as $crate::runner::UnitFn),
        ("25x1", $f::<U25, U1> as $crate::runner::UnitFn),
        ("25x11", $f::<U25, U11> as $crate::runner::UnitFn),
        ("25x24", $f::<U25, U24> as $crate::runner::UnitFn),
        ("25x25", $f::<U25, U25> as $crate::runner::UnitFn),
        ("26x0", $f::<U26, U0> as $crate::runner::UnitFn),
        ("26x1", $f::<U26, U1> as $crate::runner::UnitFn),
        ("26x13", $f::<U26, U13> as $crate::runner::UnitFn),
        ("26x26", $f::<U26, U26> as $crate::runner::UnitFn),
        ("27x1", $f::<U27, U1> as $crate::runner::UnitFn),
        ("27x2", $f::<U27, U2> as $crate::runner::UnitFn),
        ("27x15", $f::<U27, U15> as $crate::runner::UnitFn),
        ("27x27", $f::<U27, U27> as $crate::runner::UnitFn),
        ("27x28", $f::<U27, U28> as $crate::runner::UnitFn),
        ("28x1", $f::<U28, U1> as $crate::runner::UnitFn),
        ("28x4", $f::<U28, U4> as $crate::runner::UnitFn),
        ("28x17", $f::<U28, U17> as $crate::runner::UnitFn),
        ("28x28", $f::<U28, U28> as $crate::runner::UnitFn),
        ("28x30", $f::<U28, U30> as $crate::runner::UnitFn),
        ("29x1", $f::<U29, U1> as $crate::runner::UnitFn),
        ("29x6", $f::<U29, U6> as $crate::runner::UnitFn),
        ("29x19", $f::<U29, U19> as $crate::runner::UnitFn),
        ("29x29", $f::<U29, U29> as $crate::runner::UnitFn),
        ("29x32", $f::<U29, U32> as $crate::runner::UnitFn),
        ("30x1", $f::<U30, U1> as $crate::runner::UnitFn),
        ("30x8", $f::<U30, U8> as $crate::runner::UnitFn),
        ("30x21", $f::<U30, U21> as $crate::runner::UnitFn),
        ("30x30", $f::<U30, U30> as $crate::runner::UnitFn),
        ("31x0", $f::<U31, U0> as $crate::runner::UnitFn),
        ("31x1", $f::<U31, U1> as $crate::runner::UnitFn),
        ("31x2", $f::<U31, U2> as $crate::runner::UnitFn),
        ("31x3", $f::<U31, U3> as $crate::runner::UnitFn),
        ("31x4", $f::<U31, U4> as $crate::runner::UnitFn),
        ("31x5", $f::<U31, U5> as $crate::runner::UnitFn),
        ("31x7", $f::<U31, U7> as $crate::runner::UnitFn),
        ("31x8", $f::<U31, U8> as $crate::runner::UnitFn),
        ("31x10", $f::<U31, U10> as $crate::runner::UnitFn),
        ("31x16", $f::<U31, U16> as $crate::runner::UnitFn),
        ("31x17", $f::<U31, U17> as $crate::runner::UnitFn),
        ("31x23", $f::<U31, U23> as $crate::runner::UnitFn),
        ("31x31", $f::<U31, U31> as $crate::runner::UnitFn),
        ("31x32", $f::<U31, U32> as $crate::runner::UnitFn),
        ("32x0", $f::<U32, U0> as $crate::runner::UnitFn),
        ("32x1", $f::<U32, U1> as $crate::runner::UnitFn),
        ("32x2", $f::<U32, U2> as $crate::runner::UnitFn),
        ("32x3", $f::<U32, U3> as $crate::runner::UnitFn),
        ("32x4", $f::<U32, U4> as $crate::runner::UnitFn),
        ("32x5", $f::<U32, U5> as $crate::runner::UnitFn),
        ("32x7", $f::<U32, U7> as $crate::runner::UnitFn),
        ("32x8", $f::<U32, U8> as $crate::runner::UnitFn),
        ("32x12", $f::<U32, U12> as $crate::runner::UnitFn),
        ("32x16", $f::<U32, U16> as $crate::runner::UnitFn),
        ("32x17", $f::<U32, U17> as $crate::runner::UnitFn),
        ("32x25", $f::<U32, U25> as $crate::runner::UnitFn),
        ("32x31", $f::<U32, U31> as $crate::runner::UnitFn),
        ("32x32", $f::<U32, U32> as $crate::runner::UnitFn),
    ] };
    ($f:ident, $e:ty) => { &[
        ("0x0", $f::<$e, U0, U0> as $crate::runner::UnitFn),
        ("0x1", $f::<$e, U0, U1> as $crate::runner::UnitFn),
        ("0x2", $f::<$e, U0, U2> as $crate::runner::UnitFn),
        ("0x3", $f::<$e, U0, U3> as $crate::runner::UnitFn),
        ("0x4", $f::<$e, U0, U4> as $crate::runner::UnitFn),
        ("0x5", $f::<$e, U0, U5> as $crate::runner::UnitFn),
        ("0x7", $f::<$e, U0, U7> as $crate::runner::UnitFn),
        ("0x8", $f::<$e, U0, U8> as $crate::runner::UnitFn),
        ("0x13", $f::<$e, U0, U13> as $crate::runner::UnitFn),
        ("0x16", $f::<$e, U0, U16> as $crate::runner::UnitFn),
        ("0x17", $f::<$e, U0, U17> as $crate::runner::UnitFn),
        ("0x26", $f::<$e, U0, U26> as $crate::runner::UnitFn),
        ("0x31", $f::<$e, U0, U31> as $crate::runner::UnitFn),
        ("0x32", $f::<$e, U0, U32> as $crate::runner::UnitFn),
        ("1x0", $f::<$e, U1, U0> as $crate::runner::UnitFn),
        ("1x1", $f::<$e, U1, U1> as $crate::runner::UnitFn),
        ("1x2", $f::<$e, U1, U2> as $crate::runner::UnitFn),
        ("1x3", $f::<$e, U1, U3> as $crate::runner::UnitFn),
        ("1x4", $f::<$e, U1, U4> as $crate::runner::UnitFn),
        ("1x5", $f::<$e, U1, U5> as $crate::runner::UnitFn),
        ("1x6", $f::<$e, U1, U6> as $crate::runner::UnitFn),
        ("1x7", $f::<$e, U1, U7> as $crate::runner::UnitFn),
        ("1x8", $f::<$e, U1, U8> as $crate::runner::UnitFn),
        ("1x9", $f::<$e, U1, U9> as $crate::runner::UnitFn),
        ("1x10", $f::<$e, U1, U10> as $crate::runner::UnitFn),
        ("1x11", $f::<$e, U1, U11> as $crate::runner::UnitFn),
        ("1x12", $f::<$e, U1, U12> as $crate::runner::UnitFn),
        ("1x13", $f::<$e, U1, U13> as $crate::runner::UnitFn),
        ("1x14", $f::<$e, U1, U14> as $crate::runner::UnitFn),
        ("1x15", $f::<$e, U1, U15> as $crate::runner::UnitFn),
        ("1x16", $f::<$e, U1, U16> as $crate::runner::UnitFn),
        ("1x17", $f::<$e, U1, U17> as $crate::runner::UnitFn),
        ("1x18", $f::<$e, U1, U18> as $crate::runner::UnitFn),
        ("1x19", $f::<$e, U1, U19> as $crate::runner::UnitFn),
        ("1x20", $f::<$e, U1, U20> as $crate::runner::UnitFn),
        ("1x21", $f::<$e, U1, U21> as $crate::runner::UnitFn),
        ("1x22", $f::<$e, U1, U22> as $crate::runner::UnitFn),
        ("1x23", $f::<$e, U1, U23> as $crate::runner::UnitFn),
        ("1x24", $f::<$e, U1, U24> as $crate::runner::UnitFn),
        ("1x25", $f::<$e, U1, U25> as $crate::runner::UnitFn),
        ("1x26", $f::<$e, U1, U26> as $crate::runner::UnitFn),
        ("1x27", $f::<$e, U1, U27> as $crate::runner::UnitFn),
        ("1x28", $f::<$e, U1, U28> as $crate::runner::UnitFn),
        ("1x29", $f::<$e, U1, U29> as $crate::runner::UnitFn),
        ("1x30", $f::<$e, U1, U30> as $crate::runner::UnitFn),
        ("1x31", $f::<$e, U1, U31> as $crate::runner::UnitFn),
        ("1x32", $f::<$e, U1, U32> as $crate::runner::UnitFn),
        ("2x0", $f::<$e, U2, U0> as $crate::runner::UnitFn),
        ("2x1", $f::<$e, U2, U1> as $crate::runner::UnitFn),
        ("2x2", $f::<$e, U2, U2> as $crate::runner::UnitFn),
        ("2x3", $f::<$e, U2, U3> as $crate::runner::UnitFn),
        ("2x4", $f::<$e, U2, U4> as $crate::runner::UnitFn),
        ("2x5", $f::<$e, U2, U5> as $crate::runner::UnitFn),
        ("2x7", $f::<$e, U2, U7> as $crate::runner::UnitFn),
        ("2x8", $f::<$e, U2, U8> as $crate::runner::UnitFn),
        ("2x16", $f::<$e, U2, U16> as $crate::runner::UnitFn),
        ("2x17", $f::<$e, U2, U17> as $crate::runner::UnitFn),
        ("2x30", $f::<$e, U2, U30> as $crate::runner::UnitFn),
        ("2x31", $f::<$e, U2, U31> as $crate::runner::UnitFn),
        ("2x32", $f::<$e, U2, U32> as $crate::runner::UnitFn),
        ("3x0", $f::<$e, U3, U0> as $crate::runner::UnitFn),
        ("3x1", $f::<$e, U3, U1> as $crate::runner::UnitFn),
        ("3x2", $f::<$e, U3, U2> as $crate::runner::UnitFn),
        ("3x3", $f::<$e, U3, U3> as $crate::runner::UnitFn),
        ("3x4", $f::<$e, U3, U4> as $crate::runner::UnitFn),
        ("3x5", $f::<$e, U3, U5> as $crate::runner::UnitFn),
        ("3x6", $f::<$e, U3, U6> as $crate::runner::UnitFn),
        ("3x7", $f::<$e, U3, U7> as $crate::runner::UnitFn),
        ("3x8", $f::<$e, U3, U8> as $crate::runner::UnitFn),
        ("3x16", $f::<$e, U3, U16> as $crate::runner::UnitFn),
        ("3x17", $f::<$e, U3, U17> as $crate::runner::UnitFn),
        ("3x19", $f::<$e, U3, U19> as $crate::runner::UnitFn),
        ("3x31", $f::<$e, U3, U31> as $crate::runner::UnitFn),
        ("3x32", $f::<$e, U3, U32> as $crate::runner::UnitFn),
        ("4x0", $f::<$e, U4, U0> as $crate::runner::UnitFn),
        ("4x1", $f::<$e, U4, U1> as $crate::runner::UnitFn),
        ("4x2", $f::<$e, U4, U2> as $crate::runner::UnitFn),
        ("4x3", $f::<$e, U4, U3> as $crate::runner::UnitFn),
        ("4x4", $f::<$e, U4, U4> as $crate::runner::UnitFn),
        ("4x5", $f::<$e, U4, U5> as $crate::runner::UnitFn),
        ("4x7", $f::<$e, U4, U7> as $crate::runner::UnitFn),
        ("4x8", $f::<$e, U4, U8> as $crate::runner::UnitFn),
        ("4x16", $f::<$e, U4, U16> as $crate::runner::UnitFn),
        ("4x17", $f::<$e, U4, U17> as $crate::runner::UnitFn),
        ("4x21", $f::<$e, U4, U21> as $crate::runner::UnitFn),
        ("4x31", $f::<$e, U4, U31> as $crate::runner::UnitFn),
        ("4x32", $f::<$e, U4, U32> as $crate::runner::UnitFn),
        ("5x0", $f::<$e, U5, U0> as $crate::runner::UnitFn),
        ("5x1", $f::<$e, U5, U1> as $crate::runner::UnitFn),
        ("5x2", $f::<$e, U5, U2> as $crate::runner::UnitFn),
        ("5x3", $f::<$e, U5, U3> as $crate::runner::UnitFn),
        ("5x4", $f::<$e, U5, U4> as $crate::runner::UnitFn),
        ("5x5", $f::<$e, U5, U5> as $crate::runner::UnitFn),
        ("5x7", $f::<$e, U5, U7> as $crate::runner::UnitFn),
        ("5x8", $f::<$e, U5, U8> as $crate::runner::UnitFn),
        ("5x10", $f::<$e, U5, U10> as $crate::runner::UnitFn),
        ("5x16", $f::<$e, U5, U16> as $crate::runner::UnitFn),
        ("5x17", $f::<$e, U5, U17> as $crate::runner::UnitFn),
        ("5x23", $f::<$e, U5, U23> as $crate::runner::UnitFn),
        ("5x31", $f::<$e, U5, U31> as $crate::runner::UnitFn),
        ("5x32", $f::<$e, U5, U32> as $crate::runner::UnitFn),
        ("6x1", $f::<$e, U6, U1> as $crate::runner::UnitFn),
        ("6x6", $f::<$e, U6, U6> as $crate::runner::UnitFn),
        ("6x12", $f::<$e, U6, U12> as $crate::runner::UnitFn),
        ("6x25", $f::<$e, U6, U25> as $crate::runner::UnitFn),
        ("7x0", $f::<$e, U7, U0> as $crate::runner::UnitFn),
        ("7x1", $f::<$e, U7, U1> as $crate::runner::UnitFn),
        ("7x2", $f::<$e, U7, U2> as $crate::runner::UnitFn),
        ("7x3", $f::<$e, U7, U3> as $crate::runner::UnitFn),
        ("7x4", $f::<$e, U7, U4> as $crate::runner::UnitFn),
        ("7x5", $f::<$e, U7, U5> as $crate::runner::UnitFn),
        ("7x7", $f::<$e, U7, U7> as $crate::runner::UnitFn),
        ("7x8", $f::<$e, U7, U8> as $crate::runner::UnitFn),
        ("7x14", $f::<$e, U7, U14> as $crate::runner::UnitFn),
        ("7x16", $f::<$e, U7, U16> as $crate::runner::UnitFn),
        ("7x17", $f::<$e, U7, U17> as $crate::runner::UnitFn),
        ("7x27", $f::<$e, U7, U27> as $crate::runner::UnitFn),
        ("7x31", $f::<$e, U7, U31> as $crate::runner::UnitFn),
        ("7x32", $f::<$e, U7, U32> as $crate::runner::UnitFn),
        ("8x0", $f::<$e, U8, U0> as $crate::runner::UnitFn),
        ("8x1", $f::<$e, U8, U1> as $crate::runner::UnitFn),
        ("8x2", $f::<$e, U8, U2> as $crate::runner::UnitFn),
        ("8x3", $f::<$e, U8, U3> as $crate::runner::UnitFn),
        ("8x4", $f::<$e, U8, U4> as $crate::runner::UnitFn),
        ("8x5", $f::<$e, U8, U5> as $crate::runner::UnitFn),
        ("8x7", $f::<$e, U8, U7> as $crate::runner::UnitFn),
        ("8x8", $f::<$e, U8, U8> as $crate::runner::UnitFn),
        ("8x16", $f::<$e, U8, U16> as $crate::runner::UnitFn),
        ("8x17", $f::<$e, U8, U17> as $crate::runner::UnitFn),
        ("8x29", $f::<$e, U8, U29> as $crate::runner::UnitFn),
        ("8x31", $f::<$e, U8, U31> as $crate::runner::UnitFn),
        ("8x32", $f::<$e, U8, U32> as $crate::runner::UnitFn),
        ("9x1", $f::<$e, U9, U1> as $crate::runner::UnitFn),
        ("9x5", $f::<$e, U9, U5> as $crate::runner::UnitFn),
        ("9x9", $f::<$e, U9, U9> as $crate::runner::UnitFn),
        ("9x18", $f::<$e, U9, U18> as $crate::runner::UnitFn),
        ("9x31", $f::<$e, U9, U31> as $crate::runner::UnitFn),
        ("10x1", $f::<$e, U10, U1> as $crate::runner::UnitFn),
        ("10x7", $f::<$e, U10, U7> as $crate::runner::UnitFn),
        ("10x10", $f::<$e, U10, U10> as $crate::runner::UnitFn),
        ("10x20", $f::<$e, U10, U20> as $crate::runner::UnitFn),
        ("11x1", $f::<$e, U11, U1> as $crate::runner::UnitFn),
        ("11x9", $f::<$e, U11, U9> as $crate::runner::UnitFn),
        ("11x11", $f::<$e, U11, U11> as $crate::runner::UnitFn),
        ("11x22", $f::<$e, U11, U22> as $crate::runner::UnitFn),
        ("12x1", $f::<$e, U12, U1> as $crate::runner::UnitFn),
        ("12x11", $f::<$e, U12, U11> as $crate::runner::UnitFn),
        ("12x12", $f::<$e, U12, U12> as $crate::runner::UnitFn),
        ("12x24", $f::<$e, U12, U24> as $crate::runner::UnitFn),
        ("13x0", $f::<$e, U13, U0> as $crate::runner::UnitFn),
        ("13x1", $f::<$e, U13, U1> as $crate::runner::UnitFn),
        ("13x13", $f::<$e, U13, U13> as $crate::runner::UnitFn),
        ("13x26", $f::<$e, U13, U26> as $crate::runner::UnitFn),
        ("14x1", $f::<$e, U14, U1> as $crate::runner::UnitFn),
        ("14x2", $f::<$e, U14, U2> as $crate::runner::UnitFn),
        ("14x14", $f::<$e, U14, U14> as $crate::runner::UnitFn),
        ("14x15", $f::<$e, U14, U15> as $crate::runner::UnitFn),
        ("14x28", $f::<$e, U14, U28> as $crate::runner::UnitFn),
        ("15x1", $f::<$e, U15, U1> as $crate::runner::UnitFn),
        ("15x4", $f::<$e, U15, U4> as $crate::runner::UnitFn),
        ("15x15", $f::<$e, U15, U15> as $crate::runner::UnitFn),
        ("15x17", $f::<$e, U15, U17> as $crate::runner::UnitFn),
        ("15x30", $f::<$e, U15, U30> as $crate::runner::UnitFn),
        ("16x0", $f::<$e, U16, U0> as $crate::runner::UnitFn),
        ("16x1", $f::<$e, U16, U1> as $crate::runner::UnitFn),
        ("16x2", $f::<$e, U16, U2> as $crate::runner::UnitFn),
        ("16x3", $f::<$e, U16, U3> as $crate::runner::UnitFn),
        ("16x4", $f::<$e, U16, U4> as $crate::runner::UnitFn),
        ("16x5", $f::<$e, U16, U5> as $crate::runner::UnitFn),
        ("16x6", $f::<$e, U16, U6> as $crate::runner::UnitFn),
        ("16x7", $f::<$e, U16, U7> as $crate::runner::UnitFn),
        ("16x8", $f::<$e, U16, U8> as $crate::runner::UnitFn),
        ("16x16", $f::<$e, U16, U16> as $crate::runner::UnitFn),
        ("16x17", $f::<$e, U16, U17> as $crate::runner::UnitFn),
        ("16x19", $f::<$e, U16, U19> as $crate::runner::UnitFn),
        ("16x31", $f::<$e, U16, U31> as $crate::runner::UnitFn),
        ("16x32", $f::<$e, U16, U32> as $crate::runner::UnitFn),
        ("17x0", $f::<$e, U17, U0> as $crate::runner::UnitFn),
        ("17x1", $f::<$e, U17, U1> as $crate::runner::UnitFn),
        ("17x2", $f::<$e, U17, U2> as $crate::runner::UnitFn),
        ("17x3", $f::<$e, U17, U3> as $crate::runner::UnitFn),
        ("17x4", $f::<$e, U17, U4> as $crate::runner::UnitFn),
        ("17x5", $f::<$e, U17, U5> as $crate::runner::UnitFn),
        ("17x7", $f::<$e, U17, U7> as $crate::runner::UnitFn),
        ("17x8", $f::<$e, U17, U8> as $crate::runner::UnitFn),
        ("17x16", $f::<$e, U17, U16> as $crate::runner::UnitFn),
        ("17x17", $f::<$e, U17, U17> as $crate::runner::UnitFn),
        ("17x21", $f::<$e, U17, U21> as $crate::runner::UnitFn),
        ("17x31", $f::<$e, U17, U31> as $crate::runner::UnitFn),
        ("17x32", $f::<$e, U17, U32> as $crate::runner::UnitFn),
        ("18x1", $f::<$e, U18, U1> as $crate::runner::UnitFn),
        ("18x10", $f::<$e, U18, U10> as $crate::runner::UnitFn),
        ("18x18", $f::<$e, U18, U18> as $crate::runner::UnitFn),
        ("18x23", $f::<$e, U18, U23> as $crate::runner::UnitFn),
        ("19x1", $f::<$e, U19, U1> as $crate::runner::UnitFn),
        ("19x12", $f::<$e, U19, U12> as $crate::runner::UnitFn),
        ("19x19", $f::<$e, U19, U19> as $crate::runner::UnitFn),
        ("19x25", $f::<$e, U19, U25> as $crate::runner::UnitFn),
        ("20x1", $f::<$e, U20, U1> as $crate::runner::UnitFn),
        ("20x14", $f::<$e, U20, U14> as $crate::runner::UnitFn),
        ("20x20", $f::<$e, U20, U20> as $crate::runner::UnitFn),
        ("20x27", $f::<$e, U20, U27> as $crate::runner::UnitFn),
        ("21x1", $f::<$e, U21, U1> as $crate::runner::UnitFn),
        ("21x3", $f::<$e, U21, U3> as $crate::runner::UnitFn),
        ("21x16", $f::<$e, U21, U16> as $crate::runner::UnitFn),
        ("21x21", $f::<$e, U21, U21> as $crate::runner::UnitFn),
        ("21x29", $f::<$e, U21, U29> as $crate::runner::UnitFn),
        ("22x1", $f::<$e, U22, U1> as $crate::runner::UnitFn),
        ("22x5", $f::<$e, U22, U5> as $crate::runner::UnitFn),
        ("22x18", $f::<$e, U22, U18> as $crate::runner::UnitFn),
        ("22x22", $f::<$e, U22, U22> as $crate::runner::UnitFn),
        ("22x31", $f::<$e, U22, U31> as $crate::runner::UnitFn),
        ("23x1", $f::<$e, U23, U1> as $crate::runner::UnitFn),
        ("23x7", $f::<$e, U23, U7> as $crate::runner::UnitFn),
        ("23x20", $f::<$e, U23, U20> as $crate::runner::UnitFn),
        ("23x23", $f::<$e, U23, U23> as $crate::runner::UnitFn),
        ("24x1", $f::<$e, U24, U1> as $crate::runner::UnitFn),
        ("24x9", $f::<$e, U24, U9> as $crate::runner::UnitFn),
        ("24x22", $f::<$e, U24, U22> as $crate::runner::UnitFn),
        ("24x24", $f::<$e, U24, U24> as $crate::runner::UnitFn),
        ("25x1", $f::<$e, U25, U1> as $crate::runner::UnitFn),
        ("25x11", $f::<$e, U25, U11> as $crate::runner::UnitFn),
        ("25x24", $f::<$e, U25, U24> as $crate::runner::UnitFn),
        ("25x25", $f::<$e, U25, U25> as $crate::runner::UnitFn),
        ("26x0", $f::<$e, U26, U0> as $crate::runner::UnitFn),
        ("26x1", $f::<$e, U26, U1> as $crate::runner::UnitFn),
        ("26x13", $f::<$e, U26, U13> as $crate::runner::UnitFn),
        ("26x26", $f::<$e, U26, U26> as $crate::runner::UnitFn),
        ("27x1", $f::<$e, U27, U1> as $crate::runner::UnitFn),
        ("27x2", $f::<$e, U27, U2> as $crate::runner::UnitFn),
        ("27x15", $f::<$e, U27, U15> as $crate::runner::UnitFn),
        ("27x27", $f::<$e, U27, U27> as $crate::runner::UnitFn),
        ("27x28", $f::<$e, U27, U28> as $crate::runner::UnitFn),
        ("28x1", $f::<$e, U28, U1> as $crate::runner::UnitFn),
        ("28x4", $f::<$e, U28, U4> as $crate::runner::UnitFn),
        ("28x17", $f::<$e, U28, U17> as $crate::runner::UnitFn),
        ("28x28", $f::<$e, U28, U28> as $crate::runner::UnitFn),
        ("28x30", $f::<$e, U28, U30> as $crate::runner::UnitFn),
        ("29x1", $f::<$e, U29, U1> as $crate::runner::UnitFn),
        ("29x6", $f::<$e, U29, U6> as $crate::runner::UnitFn),
        ("29x19", $f::<$e, U29, U19> as $crate::runner::UnitFn),
        ("29x29", $f::<$e, U29, U29> as $crate::runner::UnitFn),
        ("29x32", $f::<$e, U29, U32> as $crate::runner::UnitFn),
        ("30x1", $f::<$e, U30, U1> as $crate::runner::UnitFn),
        ("30x8", $f::<$e, U30, U8> as $crate::runner::UnitFn),
        ("30x21", $f::<$e, U30, U21> as $crate::runner::UnitFn),
        ("30x30", $f::<$e, U30, U30> as $crate::runner::UnitFn),
        ("31x0", $f::<$e, U31, U0> as $crate::runner::UnitFn),
        ("31x1", $f::<$e, U31, U1> as $crate::runner::UnitFn),
        ("31x2", $f::<$e, U31, U2> as $crate::runner::UnitFn),
        ("31x3", $f::<$e, U31, U3> as $crate::runner::UnitFn),
        ("31x4", $f::<$e, U31, U4> as $crate::runner::UnitFn),
        ("31x5", $f::<$e, U31, U5> as $crate::runner::UnitFn),
        ("31x7", $f::<$e, U31, U7> as $crate::runner::UnitFn),
        ("31x8", $f::<$e, U31, U8> as $crate::runner::UnitFn),
        ("31x10", $f::<$e, U31, U10> as $crate::runner::UnitFn),
        ("31x16", $f::<$e, U31, U16> as $crate::runner::UnitFn),
        ("31x17", $f::<$e, U31, U17> as $crate::runner::UnitFn),
        ("31x23", $f::<$e, U31, U23> as $crate::runner::UnitFn),
        ("31x31", $f::<$e, U31, U31> as $crate::runner::UnitFn),
        ("31x32", $f::<$e, U31, U32> as $crate::runner::UnitFn),
        ("32x0", $f::<$e, U32, U0> as $crate::runner::UnitFn),
        ("32x1", $f::<$e, U32, U1> as $crate::runner::UnitFn),
        ("32x2", $f::<$e, U32, U2> as $crate::runner::UnitFn),
        ("32x3", $f::<$e, U32, U3> as $crate::runner::UnitFn),
        ("32x4", $f::<$e, U32, U4> as $crate::runner::UnitFn),
        ("32x5", $f::<$e, U32, U5> as $crate::runner::UnitFn),
        ("32x7", $f::<$e, U32, U7> as $crate::runner::UnitFn),
        ("32x8", $f::<$e, U32, U8> as $crate::runner::UnitFn),
        ("32x12", $f::<$e, U32, U12> as $crate::runner::UnitFn),
        ("32x16", $f::<$e, U32, U16> as $crate::runner::UnitFn),
        ("32x17", $f::<$e, U32, U17> as $crate::runner::UnitFn),
        ("32x25", $f::<$e, U32, U25> as $crate::runner::UnitFn),
        ("32x31", $f::<$e, U32, U31> as $crate::runner::UnitFn),
        ("32x32", $f::<$e, U32, U32> as $crate::runner::UnitFn),
    ] };
}

/// all lengths
#[macro_export]
macro_rules! cb_n {
    ($m:ident) => { &[
        ("0", $m!(U0; 0)),
        ("1", $m!(U1; 1)),
        ("2", $m!(U2; 2)),
        ("3", $m!(U3; 3)),
        ("4", $m!(U4; 4)),
        ("5", $m!(U5; 5)),
        ("6", $m!(U6; 6)),
        ("7", $m!(U7; 7)),
        ("8", $m!(U8; 8)),
        ("9", $m!(U9; 9)),
        ("10", $m!(U10; 10)),
        ("11", $m!(U11; 11)),
        ("12", $m!(U12; 12)),
        ("13", $m!(U13; 13)),
        ("14", $m!(U14; 14)),
        ("15", $m!(U15; 15)),
        ("16", $m!(U16; 16)),
        ("17", $m!(U17; 17)),
        ("18", $m!(U18; 18)),
        ("19", $m!(U19; 19)),
        ("20", $m!(U20; 20)),
        ("21", $m!(U21; 21)),
        ("22", $m!(U22; 22)),
        ("23", $m!(U23; 23)),
        ("24", $m!(U24; 24)),
        ("25", $m!(U25; 25)),
        ("26", $m!(U26; 26)),
        ("27", $m!(U27; 27)),
        ("28", $m!(U28; 28)),
        ("29", $m!(U29; 29)),
        ("30", $m!(U30; 30)),
        ("31", $m!(U31; 31)),
        ("32", $m!(U32; 32)),
    ] };
}

/// all lengths but 0
#[macro_export]
macro_rules! cb_n1 {
    ($m:ident) => { &[
        ("1", $m!(U1; 1)),
        ("2", $m!(U2; 2)),
        ("3", $m!(U3; 3)),
        ("4", $m!(U4; 4)),
        ("5", $m!(U5; 5)),
        ("6", $m!(U6; 6)),
        ("7", $m!(U7; 7)),
        ("8", $m!(U8; 8)),
        ("9", $m!(U9; 9)),
        ("10", $m!(U10; 10)),
        ("11", $m!(U11; 11)),
        ("12", $m!(U12; 12)),
        ("13", $m!(U13; 13)),
        ("14", $m!(U14; 14)),
        ("15", $m!(U15; 15)),
        ("16", $m!(U16; 16)),
        ("17", $m!(U17; 17)),
        ("18", $m!(U18; 18)),
        ("19", $m!(U19; 19)),
        ("20", $m!(U20; 20)),
        ("21", $m!(U21; 21)),
        ("22", $m!(U22; 22)),
        ("23", $m!(U23; 23)),
        ("24", $m!(U24; 24)),
        ("25", $m!(U25; 25)),
        ("26", $m!(U26; 26)),
        ("27", $m!(U27; 27)),
        ("28", $m!(U28; 28)),
        ("29", $m!(U29; 29)),
        ("30", $m!(U30; 30)),
        ("31", $m!(U31; 31)),
        ("32", $m!(U32; 32)),
    ] };
}

/// all shapes
#[macro_export]
macro_rules! cb_pairs {
    ($m:ident) => { &[
        ("0x0", $m!(U0, U0; 0, 0)),
        ("0x1", $m!(U0, U1; 0, 1)),
        ("0x2", $m!(U0, U2; 0, 2)),
        ("0x3", $m!(U0, U3; 0, 3)),
        ("0x4", $m!(U0, U4; 0, 4)),
        ("0x5", $m!(U0, U5; 0, 5)),
        ("0x6", $m!(U0, U6; 0, 6)),
        ("0x7", $m!(U0, U7; 0, 7)),
        ("0x8", $m!(U0, U8; 0, 8)),
        ("0x9", $m!(U0, U9; 0, 9)),
        ("0x10", $m!(U0, U10; 0, 10)),
        ("0x11", $m!(U0, U11; 0, 11)),
        ("0x12", $m!(U0, U12; 0, 12)),
        ("0x13", $m!(U0, U13; 0, 13)),
        ("0x14", $m!(U0, U14; 0, 14)),
        ("0x15", $m!(U0, U15; 0, 15)),
        ("0x16", $m!(U0, U16; 0, 16)),
        ("0x17", $m!(U0, U17; 0, 17)),
        ("0x18", $m!(U0, U18; 0, 18)),
        ("0x19", $m!(U0, U19; 0, 19)),
        ("0x20", $m!(U0, U20; 0, 20)),
        ("0x21", $m!(U0, U21; 0, 21)),
        ("0x22", $m!(U0, U22; 0, 22)),
        ("0x23", $m!(U0, U23; 0, 23)),
        ("0x24", $m!(U0, U24; 0, 24)),
        ("0x25", $m!(U0, U25; 0, 25)),
        ("0x26", $m!(U0, U26; 0, 26)),
        ("0x27", $m!(U0, U27; 0, 27)),
        ("0x28", $m!(U0, U28; 0, 28)),
        ("0x29", $m!(U0, U29; 0, 29)),
        ("0x30", $m!(U0, U30; 0, 30)),
        ("0x31", $m!(U0, U31; 0, 31)),
        ("0x32", $m!(U0, U32; 0, 32)),
        ("1x0", $m!(U1, U0; 1, 0)),
        ("1x1", $m!(U1, U1; 1, 1)),
        ("1x2", $m!(U1, U2; 1, 2)),
        ("1x3", $m!(U1, U3; 1, 3)),
        ("1x4", $m!(U1, U4; 1, 4)),
        ("1x5", $m!(U1, U5; 1, 5)),
        ("1x6", $m!(U1, U6; 1, 6)),
        ("1x7", $m!(U1, U7; 1, 7)),
        ("1x8", $m!(U1, U8; 1, 8)),
        ("1x9", $m!(U1, U9; 1, 9)),
        ("1x10", $m!(U1, U10; 1, 10)),
        ("1x11", $m!(U1, U11; 1, 11)),
        ("1x12", $m!(U1, U12; 1, 12)),
        ("1x13", $m!(U1, U13; 1, 13)),
        ("1x14", $m!(U1, U14; 1, 14)),
        ("1x15", $m!(U1, U15; 1, 15)),
        ("1x16", $m!(U1, U16; 1, 16)),
        ("1x17", $m!(U1, U17; 1, 17)),
        ("1x18", $m!(U1, U18; 1, 18)),
        ("1x19", $m!(U1, U19; 1, 19)),
        ("1x20", $m!(U1, U20; 1, 20)),
        ("1x21", $m!(U1, U21; 1, 21)),
        ("1x22", $m!(U1, U22; 1, 22)),
        ("1x23", $m!(U1, U23; 1, 23)),
        ("1x24", $m!(U1, U24; 1, 24)),
        ("1x25", $m!(U1, U25; 1, 25)),
        ("1x26", $m!(U1, U26; 1, 26)),
        ("1x27", $m!(U1, U27; 1, 27)),
        ("1x28", $m!(U1, U28; 1, 28)),
        ("1x29", $m!(U1, U29; 1, 29)),
        ("1x30", $m!(U1, U30; 1, 30)),
        ("1x31", $m!(U1, U31; 1, 31)),
        ("1x32", $m!(U1, U32; 1, 32)),
        ("2x0", $m!(U2, U0; 2, 0)),
        ("2x1", $m!(U2, U1; 2, 1)),
        ("2x2", $m!(U2, U2; 2, 2)),
        ("2x3", $m!(U2, U3; 2, 3)),
        ("2x4", $m!(U2, U4; 2, 4)),
        ("2x5", $m!(U2, U5; 2, 5)),
        ("2x6", $m!(U2, U6; 2, 6)),
        ("2x7", $m!(U2, U7; 2, 7)),
        ("2x8", $m!(U2, U8; 2, 8)),
        ("2x9", $m!(U2, U9; 2, 9)),
        ("2x10", $m!(U2, U10; 2, 10)),
        ("2x11", $m!(U2, U11; 2, 11)),
        ("2x12", $m!(U2, U12; 2, 12)),
        ("2x13", $m!(U2, U13; 2, 13)),
        ("2x14", $m!(U2, U14; 2, 14)),
        ("2x15", $m!(U2, U15; 2, 15)),
        ("2x16", $m!(U2, U16; 2, 16)),
        ("2x17", $m!(U2, U17; 2, 17)),
        ("2x18", $m!(U2, U18; 2, 18)),
        ("2x19", $m!(U2, U19; 2, 19)),
        ("2x20", $m!(U2, U20; 2, 20)),
        ("2x21", $m!(U2, U21; 2, 21)),
        ("2x22", $m!(U2, U22; 2, 22)),
        ("2x23", $m!(U2, U23; 2, 23)),
        ("2x24", $m!(U2, U24; 2, 24)),
        ("2x25", $m!(U2, U25; 2, 25)),
        ("2x26", $m!(U2, U26; 2, 26)),
        ("2x27", $m!(U2, U27; 2, 27)),
        ("2x28", $m!(U2, U28; 2, 28)),
        ("2x29", $m!(U2, U29; 2, 29)),
        ("2x30", $m!(U2, U30; 2, 30)),
        ("2x31", $m!(U2, U31; 2, 31)),
        ("2x32", $m!(U2, U32; 2, 32)),
        ("3x0", $m!(U3, U0; 3, 0)),
        ("3x1", $m!(U3, U1; 3, 1)),
        ("3x2", $m!(U3, U2; 3, 2)),
        ("3x3", $m!(U3, U3; 3, 3)),
        ("3x4", $m!(U3, U4; 3, 4)),
        ("3x5", $m!(U3, U5; 3, 5)),
        ("3x6", $m!(U3, U6; 3, 6)),
        ("3x7", $m!(U3, U7; 3, 7)),
        ("3x8", $m!(U3, U8; 3, 8)),
        ("3x9", $m!(U3, U9; 3, 9)),
        ("3x10", $m!(U3, U10; 3, 10)),
        ("3x11", $m!(U3, U11; 3, 11)),
        ("3x12", $m!(U3, U12; 3, 12)),
        ("3x13", $m!(U3, U13; 3, 13)),
        ("3x14", $m!(U3, U14; 3, 14)),
        ("3x15", $m!(U3, U15; 3, 15)),
        ("3x16", $m!(U3, U16; 3, 16)),
        ("3x17", $m!(U3, U17; 3, 17)),
        ("3x18", $m!(U3, U18; 3, 18)),
        ("3x19", $m!(U3, U19; 3, 19)),
        ("3x20", $m!(U3, U20; 3, 20)),
        ("3x21", $m!(U3, U21; 3, 21)),
        ("3x22", $m!(U3, U22; 3, 22)),
        ("3x23", $m!(U3, U23; 3, 23)),
        ("3x24", $m!(U3, U24; 3, 24)),
        ("3x25", $m!(U3, U25; 3, 25)),
        ("3x26", $m!(U3, U26; 3, 26)),
        ("3x27", $m!(U3, U27; 3, 27)),
        ("3x28", $m!(U3, U28; 3, 28)),
        ("3x29", $m!(U3, U29; 3, 29)),
        ("3x30", $m!(U3, U30; 3, 30)),
        ("3x31", $m!(U3, U31; 3, 31)),
        ("3x32", $m!(U3, U32; 3, 32)),
        ("4x0", $m!(U4, U0; 4, 0)),
        ("4x1", $m!(U4, U1; 4, 1)),
        ("4x2", $m!(U4, U2; 4, 2)),
        ("4x3", $m!(U4, U3; 4, 3)),
        ("4x4", $m!(U4, U4; 4, 4)),
        ("4x5", $m!(U4, U5; 4, 5)),
        ("4x6", $m!(U4, U6; 4, 6)),
        ("4x7", $m!(U4, U7; 4, 7)),
        ("4x8", $m!(U4, U8; 4, 8)),
        ("4x9", $m!(U4, U9; 4, 9)),
        ("4x10", $m!(U4, U10; 4, 10)),
        ("4x11", $m!(U4, U11; 4, 11)),
        ("4x12", $m!(U4, U12; 4, 12)),
        ("4x13", $m!(U4, U13; 4, 13)),
        ("4x14", $m!(U4, U14; 4, 14)),
        ("4x15", $m!(U4, U15; 4, 15)),
        ("4x16", $m!(U4, U16; 4, 16)),
        ("4x17", $m!(U4, U17; 4, 17)),
        ("4x18", $m!(U4, U18; 4, 18)),
        ("4x19", $m!(U4, U19; 4, 19)),
        ("4x20", $m!(U4, U20; 4, 20)),
        ("4x21", $m!(U4, U21; 4, 21)),
        ("4x22", $m!(U4, U22; 4, 22)),
        ("4x23", $m!(U4, U23; 4, 23)),
        ("4x24", $m!(U4, U24; 4, 24)),
        ("4x25", $m!(U4, U25; 4, 25)),
        ("4x26", $m!(U4, U26; 4, 26)),
        ("4x27", $m!(U4, U27; 4, 27)),
        ("4x28", $m!(U4, U28; 4, 28)),
        ("4x29", $m!(U4, U29; 4, 29)),
        ("4x30", $m!(U4, U30; 4, 30)),
        ("4x31", $m!(U4, U31; 4, 31)),
        ("4x32", $m!(U4, U32; 4, 32)),
        ("5x0", $m!(U5, U0; 5, 0)),
        ("5x1", $m!(U5, U1; 5, 1)),
        ("5x2", $m!(U5, U2; 5, 2)),
        ("5x3", $m!(U5, U3; 5, 3)),
        ("5x4", $m!(U5, U4; 5, 4)),
        ("5x5", $m!(U5, U5; 5, 5)),
        ("5x6", $m!(U5, U6; 5, 6)),
        ("5x7", $m!(U5, U7; 5, 7)),
        ("5x8", $m!(U5, U8; 5, 8)),
        ("5x9", $m!(U5, U9; 5, 9)),
        ("5x10", $m!(U5, U10; 5, 10)),
        ("5x11", $m!(U5, U11; 5, 11)),
        ("5x12", $m!(U5, U12; 5, 12)),
        ("5x13", $m!(U5, U13; 5, 13)),
        ("5x14", $m!(U5, U14; 5, 14)),
        ("5x15", $m!(U5, U15; 5, 15)),
        ("5x16", $m!(U5, U16; 5, 16)),
        ("5x17", $m!(U5, U17; 5, 17)),
        ("5x18", $m!(U5, U18; 5, 18)),
        ("5x19", $m!(U5, U19; 5, 19)),
        ("5x20", $m!(U5, U20; 5, 20)),
        ("5x21", $m!(U5, U21; 5, 21)),
        ("5x22", $m!(U5, U22; 5, 22)),
        ("5x23", $m!(U5, U23; 5, 23)),
        ("5x24", $m!(U5, U24; 5, 24)),
        ("5x25", $m!(U5, U25; 5, 25)),
        ("5x26", $m!(U5, U26; 5, 26)),
        ("5x27", $m!(U5, U27; 5, 27)),
        ("5x28", $m!(U5, U28; 5, 28)),
        ("5x29", $m!(U5, U29; 5, 29)),
        ("5x30", $m!(U5, U30; 5, 30)),
        ("5x31", $m!(U5, U31; 5, 31)),
        ("5x32", $m!(U5, U32; 5, 32)),
        ("6x0", $m!(U6, U0; 6, 0)),
        ("6x1", $m!(U6, U1; 6, 1)),
        ("6x2", $m!(U6, U2; 6, 2)),
        ("6x3", $m!(U6, U3; 6, 3)),
        ("6x4", $m!(U6, U4; 6, 4)),
        ("6x5", $m!(U6, U5; 6, 5)),
        ("6x6", $m!(U6, U6; 6, 6)),
        ("6x7", $m!(U6, U7; 6, 7)),
        ("6x8", $m!(U6, U8; 6, 8)),
        ("6x9", $m!(U6, U9; 6, 9)),
        ("6x10", $m!(U6, U10; 6, 10)),
        ("6x11", $m!(U6, U11; 6, 11)),
        ("6x12", $m!(U6, U12; 6, 12)),
        ("6x13", $m!(U6, U13; 6, 13)),
        ("6x14", $m!(U6, U14; 6, 14)),
        ("6x15", $m!(U6, U15; 6, 15)),
        ("6x16", $m!(U6, U16; 6, 16)),
        ("6x17", $m!(U6, U17; 6, 17)),
        ("6x18", $m!(U6, U18; 6, 18)),
        ("6x19", $m!(U6, U19; 6, 19)),
        ("6x20", $m!(U6, U20; 6, 20)),
        ("6x21", $m!(U6, U21; 6, 21)),
        ("6x22", $m!(U6, U22; 6, 22)),
        ("6x23", $m!(U6, U23; 6, 23)),
        ("6x24", $m!(U6, U24; 6, 24)),
        ("6x25", $m!(U6, U25; 6, 25)),
        ("6x26", $m!(U6, U26; 6, 26)),
        ("6x27", $m!(U6, U27; 6, 27)),
        ("6x28", $m!(U6, U28; 6, 28)),
        ("6x29", $m!(U6, U29; 6, 29)),
        ("6x30", $m!(U6, U30; 6, 30)),
        ("6x31", $m!(U6, U31; 6, 31)),
        ("6x32", $m!(U6, U32; 6, 32)),
        ("7x0", $m!(U7, U0; 7, 0)),
        ("7x1", $m!(U7, U1; 7, 1)),
        ("7x2", $m!(U7, U2; 7, 2)),
        ("7x3", $m!(U7, U3; 7, 3)),
        ("7x4", $m!(U7, U4; 7, 4)),
        ("7x5", $m!(U7, U5; 7, 5)),
        ("7x6", $m!(U7, U6; 7, 6)),
        ("7x7", $m!(U7, U7; 7, 7)),
        ("7x8", $m!(U7, U8; 7, 8)),
        ("7x9", $m!(U7, U9; 7, 9)),
        ("7x10", $m!(U7, U10; 7, 10)),
        ("7x11", $m!(U7, U11; 7, 11)),
        ("7x12", $m!(U7, U12; 7, 12)),
        ("7x13", $m!(U7, U13; 7, 13)),
        ("7x14", $m!(U7, U14; 7, 14)),
        ("7x15", $m!(U7, U15; 7, 15)),
        ("7x16", $m!(U7, U16; 7, 16)),
        ("7x17", $m!(U7, U17; 7, 17)),
        ("7x18", $m!(U7, U18; 7, 18)),
        ("7x19", $m!(U7, U19; 7, 19)),
        ("7x20", $m!(U7, U20; 7, 20)),
        ("7x21", $m!(U7, U21; 7, 21)),
        ("7x22", $m!(U7, U22; 7, 22)),
        ("7x23", $m!(U7, U23; 7, 23)),
        ("7x24", $m!(U7, U24; 7, 24)),
        ("7x25", $m!(U7, U25; 7, 25)),
        ("7x26", $m!(U7, U26; 7, 26)),
        ("7x27", $m!(U7, U27; 7, 27)),
        ("7x28", $m!(U7, U28; 7, 28)),
        ("7x29", $m!(U7, U29; 7, 29)),
        ("7x30", $m!(U7, U30; 7, 30)),
        ("7x31", $m!(U7, U31; 7, 31)),
        ("7x32", $m!(U7, U32; 7, 32)),
        ("8x0", $m!(U8, U0; 8, 0)),
        ("8x1", $m!(U8, U1; 8, 1)),
        ("8x2", $m!(U8, U2; 8, 2)),
        ("8x3", $m!(U8, U3; 8, 3)),
        ("8x4", $m!(U8, U4; 8, 4)),
        ("8x5", $m!(U8, U5; 8, 5)),
        ("8x6", $m!(U8, U6; 8, 6)),
        ("8x7", $m!(U8, U7; 8, 7)),
        ("8x8", $m!(U8, U8; 8, 8)),
        ("8x9", $m!(U8, U9; 8, 9)),
        ("8x10", $m!(U8, U10; 8, 10)),
        ("8x11", $m!(U8, U11; 8, 11)),
        ("8x12", $m!(U8, U12; 8, 12)),
        ("8x13", $m!(U8, U13; 8, 13)),
        ("8x14", $m!(U8, U14; 8, 14)),
        ("8x15", $m!(U8, U15; 8, 15)),
        ("8x16", $m!(U8, U16; 8, 16)),
        ("8x17", $m!(U8, U17; 8, 17)),
        ("8x18", $m!(U8, U18; 8, 18)),
        ("8x19", $m!(U8, U19; 8, 19)),
        ("8x20", $m!(U8, U20; 8, 20)),
        ("8x21", $m!(U8, U21; 8, 21)),
        ("8x22", $m!(U8, U22; 8, 22)),
        ("8x23", $m!(U8, U23; 8, 23)),
        ("8x24", $m!(U8, U24; 8, 24)),
        ("8x25", $m!(U8, U25; 8, 25)),
        ("8x26", $m!(U8, U26; 8, 26)),
        ("8x27", $m!(U8, U27; 8, 27)),
        ("8x28", $m!(U8, U28; 8, 28)),
        ("8x29", $m!(U8, U29; 8, 29)),
        ("8x30", $m!(U8, U30; 8, 30)),
        ("8x31", $m!(U8, U31; 8, 31)),
        ("8x32", $m!(U8, U32; 8, 32)),
        ("9x0", $m!(U9, U0; 9, 0)),
        ("9x1", $m!(U9, U1; 9, 1)),
        ("9x2", $m!(U9, U2; 9, 2)),
        ("9x3", $m!(U9, U3; 9, 3)),
        ("9x4", $m!(U9, U4; 9, 4)),
        ("9x5", $m!(U9, U5; 9, 5)),
        ("9x6", $m!(U9, U6; 9, 6)),
        ("9x7", $m!(U9, U7; 9, 7)),
        ("9x8", $m!(U9, U8; 9, 8)),
        ("9x9", $m!(U9, U9; 9, 9)),
        ("9x10", $m!(U9, U10; 9, 10)),
        ("9x11", $m!(U9, U11; 9, 11)),
        ("9x12", $m!(U9, U12; 9, 12)),
        ("9x13", $m!(U9, U13; 9, 13)),
        ("9x14", $m!(U9, U14; 9, 14)),
        ("9x15", $m!(U9, U15; 9, 15)),
        ("9x16", $m!(U9, U16; 9, 16)),
        ("9x17", $m!(U9, U17; 9, 17)),
        ("9x18", $m!(U9, U18; 9, 18)),
        ("9x19", $m!(U9, U19; 9, 19)),
        ("9x20", $m!(U9, U20; 9, 20)),
        ("9x21", $m!(U9, U21; 9, 21)),
        ("9x22", $m!(U9, U22; 9, 22)),
        ("9x23", $m!(U9, U23; 9, 23)),
        ("9x24", $m!(U9, U24; 9, 24)),
        ("9x25", $m!(U9, U25; 9, 25)),
        ("9x26", $m!(U9, U26; 9, 26)),
        ("9x27", $m!(U9, U27; 9, 27)),
        ("9x28", $m!(U9, U28; 9, 28)),
        ("9x29", $m!(U9, U29; 9, 29)),
        ("9x30", $m!(U9, U30; 9, 30)),
        ("9x31", $m!(U9, U31; 9, 31)),
        ("9x32", $m!(U9, U32; 9, 32)),
        ("10x0", $m!(U10, U0; 10, 0)),
        ("10x1", $m!(U10, U1; 10, 1)),
        ("10x2", $m!(U10, U2; 10, 2)),
        ("10x3", $m!(U10, U3; 10, 3)),
        ("10x4", $m!(U10, U4; 10, 4)),
        ("10x5", $m!(U10, U5; 10, 5)),
        ("10x6", $m!(U10, U6; 10, 6)),
        ("10x7", $m!(U10, U7; 10, 7)),
        ("10x8", $m!(U10, U8; 10, 8)),
        ("10x9", $m!(U10, U9; 10, 9)),
        ("10x10", $m!(U10, U10; 10, 10)),
        ("10x11", $m!(U10, U11; 10, 11)),
        ("10x12", $m!(U10, U12; 10, 12)),
        ("10x13", $m!(U10, U13; 10, 13)),
        ("10x14", $m!(U10, U14; 10, 14)),
        ("10x15", $m!(U10, U15; 10, 15)),
        ("10x16", $m!(U10, U16; 10, 16)),
        ("10x17", $m!(U10, U17; 10, 17)),
        ("10x18", $m!(U10, U18; 10, 18)),
        ("10x19", $m!(U10, U19; 10, 19)),
        ("10x20", $m!(U10, U20; 10, 20)),
        ("10x21", $m!(U10, U21; 10, 21)),
        ("10x22", $m!(U10, U22; 10, 22)),
        ("10x23", $m!(U10, U23; 10, 23)),
        ("10x24", $m!(U10, U24; 10, 24)),
        ("10x25", $m!(U10, U25; 10, 25)),
        ("10x26", $m!(U10, U26; 10, 26)),
        ("10x27", $m!(U10, U27; 10, 27)),
        ("10x28", $m!(U10, U28; 10, 28)),
        ("10x29", $m!(U10, U29; 10, 29)),
        ("10x30", $m!(U10, U30; 10, 30)),
        ("10x31", $m!(U10, U31; 10, 31)),
        ("10x32", $m!(U10, U32; 10, 32)),
        ("11x0", $m!(U11, U0; 11, 0)),
        ("11x1", $m!(U11, U1; 11, 1)),
        ("11x2", $m!(U11, U2; 11, 2)),
        ("11x3", $m!(U11, U3; 11, 3)),
        ("11x4", $m!(U11, U4; 11, 4)),
        ("11x5", $m!(U11, U5; 11, 5)),
        ("11x6", $m!(U11, U6; 11, 6)),
        ("11x7", $m!(U11, U7; 11, 7)),
        ("11x8", $m!(U11, U8; 11, 8)),
        ("11x9", $m!(U11, U9; 11, 9)),
        ("11x10", $m!(U11, U10; 11, 10)),
        ("11x11", $m!(U11, U11; 11, 11)),
        ("11x12", $m!(U11, U12; 11, 12)),
        ("11x13", $m!(U11, U13; 11, 13)),
        ("11x14", $m!(U11, U14; 11, 14)),
        ("11x15", $m!(U11, U15; 11, 15)),
        ("11x16", $m!(U11, U16; 11, 16)),
        ("11x17", $m!(U11, U17; 11, 17)),
        ("11x18", $m!(U11, U18; 11, 18)),
        ("11x19", $m!(U11, U19; 11, 19)),
        ("11x20", $m!(U11, U20; 11, 20)),
        ("11x21", $m!(U11, U21; 11, 21)),
        ("11x22", $m!(U11, U22; 11, 22)),
        ("11x23", $m!(U11, U23; 11, 23)),
        ("11x24", $m!(U11, U24; 11, 24)),
        ("11x25", $m!(U11, U25; 11, 25)),
        ("11x26", $m!(U11, U26; 11, 26)),
        ("11x27", $m!(U11, U27; 11, 27)),
        ("11x28", $m!(U11, U28; 11, 28)),
        ("11x29", $m!(U11, U29; 11, 29)),
        ("11x30", $m!(U11, U30; 11, 30)),
        ("11x31", $m!(U11, U31; 11, 31)),
        ("11x32", $m!(U11, U32; 11, 32)),
        ("12x0", $m!(U12, U0; 12, 0)),
        ("12x1", $m!(U12, U1; 12, 1)),
        ("12x2", $m!(U12, U2; 12, 2)),
        ("12x3", $m!(U12, U3; 12, 3)),
        ("12x4", $m!(U12, U4; 12, 4)),
        ("12x5", $m!(U12, U5; 12, 5)),
        ("12x6", $m!(U12, U6; 12, 6)),
        ("12x7", $m!(U12, U7; 12, 7)),
        ("12x8", $m!(U12, U8; 12, 8)),
        ("12x9", $m!(U12, U9; 12, 9)),
        ("12x10", $m!(U12, U10; 12, 10)),
        ("12x11", $m!(U12, U11; 12, 11)),
        ("12x12", $m!(U12, U12; 12, 12)),
        ("12x13", $m!(U12, U13; 12, 13)),
        ("12x14", $m!(U12, U14; 12, 14)),
        ("12x15", $m!(U12, U15; 12, 15)),
        ("12x16", $m!(U12, U16; 12, 16)),
        ("12x17", $m!(U12, U17; 12, 17)),
        ("12x18", $m!(U12, U18; 12, 18)),
        ("12x19", $m!(U12, U19; 12, 19)),
        ("12x20", $m!(U12, U20; 12, 20)),
        ("12x21", $m!(U12, U21; 12, 21)),
        ("12x22", $m!(U12, U22; 12, 22)),
        ("12x23", $m!(U12, U23; 12, 23)),
        ("12x24", $m!(U12, U24; 12, 24)),
        ("12x25", $m!(U12, U25; 12, 25)),
        ("12x26", $m!(U12, U26; 12, 26)),
        ("12x27", $m!(U12, U27; 12, 27)),
        ("12x28", $m!(U12, U28; 12, 28)),
        ("12x29", $m!(U12, U29; 12, 29)),
        ("12x30", $m!(U12, U30; 12, 30)),
        ("12x31", $m!(U12, U31; 12, 31)),
        ("12x32", $m!(U12, U32; 12, 32)),
        ("13x0", $m!(U13, U0; 13, 0)),
        ("13x1", $m!(U13, U1; 13, 1)),
        ("13x2", $m!(U13, U2; 13, 2)),
        ("13x3", $m!(U13, U3; 13, 3)),
        ("13x4", $m!(U13, U4; 13, 4)),
        ("13x5", $m!(U13, U5; 13, 5)),
        ("13x6", $m!(U13, U6; 13, 6)),
        ("13x7", $m!(U13, U7; 13, 7)),
        ("13x8", $m!(U13, U8; 13, 8)),
        ("13x9", $m!(U13, U9; 13, 9)),
        ("13x10", $m!(U13, U10; 13, 10)),
        ("13x11", $m!(U13, U11; 13, 11)),
        ("13x12", $m!(U13, U12; 13, 12)),
        ("13x13", $m!(U13, U13; 13, 13)),
        ("13x14", $m!(U13, U14; 13, 14)),
        ("13x15", $m!(U13, U15; 13, 15)),
        ("13x16", $m!(U13, U16; 13, 16)),
        ("13x17", $m!(U13, U17; 13, 17)),
        ("13x18", $m!(U13, U18; 13, 18)),
        ("13x19", $m!(U13, U19; 13, 19)),
        ("13x20", $m!(U13, U20; 13, 20)),
        ("13x21", $m!(U13, U21; 13, 21)),
        ("13x22", $m!(U13, U22; 13, 22)),
        ("13x23", $m!(U13, U23; 13, 23)),
        ("13x24", $m!(U13, U24; 13, 24)),
        ("13x25", $m!(U13, U25; 13, 25)),
        ("13x26", $m!(U13, U26; 13, 26)),
        ("13x27", $m!(U13, U27; 13, 27)),
        ("13x28", $m!(U13, U28; 13, 28)),
        ("13x29", $m!(U13, U29; 13, 29)),
        ("13x30", $m!(U13, U30; 13, 30)),
        ("13x31", $m!(U13, U31; 13, 31)),
        ("13x32", $m!(U13, U32; 13, 32)),
        ("14x0", $m!(U14, U0; 14, 0)),
        ("14x1", $m!(U14, U1; 14, 1)),
        ("14x2", $m!(U14, U2; 14, 2)),
        ("14x3", $m!(U14, U3; 14, 3)),
        ("14x4", $m!(U14, U4; 14, 4)),
        ("14x5", $m!(U14, U5; 14, 5)),
        ("14x6", $m!(U14, U6; 14, 6)),
        ("14x7", $m!(U14, U7; 14, 7)),
        ("14x8", $m!(U14, U8; 14, 8)),
        ("14x9", $m!(U14, U9; 14, 9)),
        ("14x10", $m!(U14, U10; 14, 10)),
        ("14x11", $m!(U14, U11; 14, 11)),
        ("14x12", $m!(U14, U12; 14, 12)),
        ("14x13", $m!(U14, U13; 14, 13)),
        ("14x14", $m!(U14, U14; 14, 14)),
        ("14x15", $m!(U14, U15; 14, 15)),
        ("14x16", $m!(U14, U16; 14, 16)),
        ("14x17", $m!(U14, U17; 14, 17)),
        ("14x18", $m!(U14, U18; 14, 18)),
        ("14x19", $m!(U14, U19; 14, 19)),
        ("14x20", $m!(U14, U20; 14, 20)),
        ("14x21", $m!(U14, U21; 14, 21)),
        ("14x22", $m!(U14, U22; 14, 22)),
        ("14x23", $m!(U14, U23; 14, 23)),
        ("14x24", $m!(U14, U24; 14, 24)),
        ("14x25", $m!(U14, U25; 14, 25)),
        ("14x26", $m!(U14, U26; 14, 26)),
        ("14x27", $m!(U14, U27; 14, 27)),
        ("14x28", $m!(U14, U28; 14, 28)),
        ("14x29", $m!(U14, U29; 14, 29)),
        ("14x30", $m!(U14, U30; 14, 30)),
        ("14x31", $m!(U14, U31; 14, 31)),
        ("14x32", $m!(U14, U32; 14, 32)),
        ("15x0", $m!(U15, U0; 15, 0)),
        ("15x1", $m!(U15, U1; 15, 1)),
        ("15x2", $m!(U15, U2; 15, 2)),
        ("15x3", $m!(U15, U3; 15, 3)),
        ("15x4", $m!(U15, U4; 15, 4)),
        ("15x5", $m!(U15, U5; 15, 5)),
        ("15x6", $m!(U15, U6; 15, 6)),
        ("15x7", $m!(U15, U7; 15, 7)),
        ("15x8", $m!(U15, U8; 15, 8)),
        ("15x9", $m!(U15, U9; 15, 9)),
        ("15x10", $m!(U15, U10; 15, 10)),
        ("15x11", $m!(U15, U11; 15, 11)),
        ("15x12", $m!(U15, U12; 15, 12)),
        ("15x13", $m!(U15, U13; 15, 13)),
        ("15x14", $m!(U15, U14; 15, 14)),
        ("15x15", $m!(U15, U15; 15, 15)),
        ("15x16", $m!(U15, U16; 15, 16)),
        ("15x17", $m!(U15, U17; 15, 17)),
        ("15x18", $m!(U15, U18; 15, 18)),
        ("15x19", $m!(U15, U19; 15, 19)),
        ("15x20", $m!(U15, U20; 15, 20)),
        ("15x21", $m!(U15, U21; 15, 21)),
        ("15x22", $m!(U15, U22; 15, 22)),
        ("15x23", $m!(U15, U23; 15, 23)),
        ("15x24", $m!(U15, U24; 15, 24)),
        ("15x25", $m!(U15, U25; 15, 25)),
        ("15x26", $m!(U15, U26; 15, 26)),
        ("15x27", $m!(U15, U27; 15, 27)),
        ("15x28", $m!(U15, U28; 15, 28)),
        ("15x29", $m!(U15, U29; 15, 29)),
        ("15x30", $m!(U15, U30; 15, 30)),
        ("15x31", $m!(U15, U31; 15, 31)),
        ("15x32", $m!(U15, U32; 15, 32)),
        ("16x0", $m!(U16, U0; 16, 0)),
        ("16x1", $m!(U16, U1; 16, 1)),
        ("16x2", $m!(U16, U2; 16, 2)),
        ("16x3", $m!(U16, U3; 16, 3)),
        ("16x4", $m!(U16, U4; 16, 4)),
        ("16x5", $m!(U16, U5; 16, 5)),
        ("16x6", $m!(U16, U6; 16, 6)),
        ("16x7", $m!(U16, U7; 16, 7)),
        ("16x8", $m!(U16, U8; 16, 8)),
        ("16x9", $m!(U16, U9; 16, 9)),
        ("16x10", $m!(U16, U10; 16, 10)),
        ("16x11", $m!(U16, U11; 16, 11)),
        ("16x12", $m!(U16, U12; 16, 12)),
        ("16x13", $m!(U16, U13; 16, 13)),
        ("16x14", $m!(U16, U14; 16, 14)),
        ("16x15", $m!(U16, U15; 16, 15)),
        ("16x16", $m!(U16, U16; 16, 16)),
        ("16x17", $m!(U16, U17; 16, 17)),
        ("16x18", $m!(U16, U18; 16, 18)),
        ("16x19", $m!(U16, U19; 16, 19)),
        ("16x20", $m!(U16, U20; 16, 20)),
        ("16x21", $m!(U16, U21; 16, 21)),
        ("16x22", $m!(U16, U22; 16, 22)),
        ("16x23", $m!(U16, U23; 16, 23)),
        ("16x24", $m!(U16, U24; 16, 24)),
        ("16x25", $m!(U16, U25; 16, 25)),
        ("16x26", $m!(U16, U26; 16, 26)),
        ("16x27", $m!(U16, U27; 16, 27)),
        ("16x28", $m!(U16, U28; 16, 28)),
        ("16x29", $m!(U16, U29; 16, 29)),
        ("16x30", $m!(U16, U30; 16, 30)),
        ("16x31", $m!(U16, U31; 16, 31)),
        ("16x32", $m!(U16, U32; 16, 32)),
        ("17x0", $m!(U17, U0; 17, 0)),
        ("17x1", $m!(U17, U1; 17, 1)),
        ("17x2", $m!(U17, U2; 17, 2)),
        ("17x3", $m!(U17, U3; 17, 3)),
        ("17x4", $m!(U17, U4; 17, 4)),
        ("17x5", $m!(U17, U5; 17, 5)),
        ("17x6", $m!(U17, U6; 17, 6)),
        ("17x7", $m!(U17, U7; 17, 7)),
        ("17x8", $m!(U17, U8; 17, 8)),
        ("17x9", $m!(U17, U9; 17, 9)),
        ("17x10", $m!(U17, U10; 17, 10)),
        ("17x11", $m!(U17, U11; 17, 11)),
        ("17x12", $m!(U17, U12; 17, 12)),
        ("17x13", $m!(U17, U13; 17, 13)),
        ("17x14", $m!(U17, U14; 17, 14)),
        ("17x15", $m!(U17, U15; 17, 15)),
        ("17x16", $m!(U17, U16; 17, 16)),
        ("17x17", $m!(U17, U17; 17, 17)),
        ("17x18", $m!(U17, U18; 17, 18)),
        ("17x19", $m!(U17, U19; 17, 19)),
        ("17x20", $m!(U17, U20; 17, 20)),
        ("17x21", $m!(U17, U21; 17, 21)),
        ("17x22", $m!(U17, U22; 17, 22)),
        ("17x23", $m!(U17, U23; 17, 23)),
        ("17x24", $m!(U17, U24; 17, 24)),
        ("17x25", $m!(U17, U25; 17, 25)),
        ("17x26", $m!(U17, U26; 17, 26)),
        ("17x27", $m!(U17, U27; 17, 27)),
        ("17x28", $m!(U17, U28; 17, 28)),
        ("17x29", $m!(U17, U29; 17, 29)),
        ("17x30", $m!(U17, U30; 17, 30)),
        ("17x31", $m!(U17, U31; 17, 31)),
        ("17x32", $m!(U17, U32; 17, 32)),
        ("18x0", $m!(U18, U0; 18, 0)),
        ("18x1", $m!(U18, U1; 18, 1)),
        ("18x2", $m!(U18, U2; 18, 2)),
        ("18x3", $m!(U18, U3; 18, 3)),
        ("18x4", $m!(U18, U4; 18, 4)),
        ("18x5", $m!(U18, U5; 18, 5)),
        ("18x6", $m!(U18, U6; 18, 6)),
        ("18x7", $m!(U18, U7; 18, 7)),
        ("18x8", $m!(U18, U8; 18, 8)),
        ("18x9", $m!(U18, U9; 18, 9)),
        ("18x10", $m!(U18, U10; 18, 10)),
        ("18x11", $m!(U18, U11; 18, 11)),
        ("18x12", $m!(U18, U12; 18, 12)),
        ("18x13", $m!(U18, U13; 18, 13)),
        ("18x14", $m!(U18, U14; 18, 14)),
        ("18x15", $m!(U18, U15; 18, 15)),
        ("18x16", $m!(U18, U16; 18, 16)),
        ("18x17", $m!(U18, U17; 18, 17)),
        ("18x18", $m!(U18, U18; 18, 18)),
        ("18x19", $m!(U18, U19; 18, 19)),
        ("18x20", $m!(U18, U20; 18, 20)),
        ("18x21", $m!(U18, U21; 18, 21)),
        ("18x22", $m!(U18, U22; 18, 22)),
        ("18x23", $m!(U18, U23; 18, 23)),
        ("18x24", $m!(U18, U24; 18, 24)),
        ("18x25", $m!(U18, U25; 18, 25)),
        ("18x26", $m!(U18, U26; 18, 26)),
        ("18x27", $m!(U18, U27; 18, 27)),
        ("18x28", $m!(U18, U28; 18, 28)),
        ("18x29", $m!(U18, U29; 18, 29)),
        ("18x30", $m!(U18, U30; 18, 30)),
        ("18x31", $m!(U18, U31; 18, 31)),
        ("18x32", $m!(U18, U32; 18, 32)),
        ("19x0", $m!(U19, U0; 19, 0)),
        ("19x1", $m!(U19, U1; 19, 1)),
        ("19x2", $m!(U19, U2; 19, 2)),
        ("19x3", $m!(U19, U3; 19, 3)),
        ("19x4", $m!(U19, U4; 19, 4)),
        ("19x5", $m!(U19, U5; 19, 5)),
        ("19x6", $m!(U19, U6; 19, 6)),
        ("19x7", $m!(U19, U7; 19, 7)),
        ("19x8", $m!(U19, U8; 19, 8)),
        ("19x9", $m!(U19, U9; 19, 9)),
        ("19x10", $m!(U19, U10; 19, 10)),
        ("19x11", $m!(U19, U11; 19, 11)),
        ("19x12", $m!(U19, U12; 19, 12)),
        ("19x13", $m!(U19, U13; 19, 13)),
        ("19x14", $m!(U19, U14; 19, 14)),
        ("19x15", $m!(U19, U15; 19, 15)),
        ("19x16", $m!(U19, U16; 19, 16)),
        ("19x17", $m!(U19, U17; 19, 17)),
        ("19x18", $m!(U19, U18; 19, 18)),
        ("19x19", $m!(U19, U19; 19, 19)),
        ("19x20", $m!(U19, U20; 19, 20)),
        ("19x21", $m!(U19, U21; 19, 21)),
        ("19x22", $m!(U19, U22; 19, 22)),
        ("19x23", $m!(U19, U23; 19, 23)),
        ("19x24", $m!(U19, U24; 19, 24)),
        ("19x25", $m!(U19, U25; 19, 25)),
        ("19x26", $m!(U19, U26; 19, 26)),
        ("19x27", $m!(U19, U27; 19, 27)),
        ("19x28", $m!(U19, U28; 19, 28)),
        ("19x29", $m!(U19, U29; 19, 29)),
        ("19x30", $m!(U19, U30; 19, 30)),
        ("19x31", $m!(U19, U31; 19, 31)),
        ("19x32", $m!(U19, U32; 19, 32)),
        ("20x0", $m!(U20, U0; 20, 0)),
        ("20x1", $m!(U20, U1; 20, 1)),
        ("20x2", $m!(U20, U2; 20, 2)),
        ("20x3", $m!(U20, U3; 20, 3)),
        ("20x4", $m!(U20, U4; 20, 4)),
        ("20x5", $m!(U20, U5; 20, 5)),
        ("20x6", $m!(U20, U6; 20, 6)),
        ("20x7", $m!(U20, U7; 20, 7)),
        ("20x8", $m!(U20, U8; 20, 8)),
        ("20x9", $m!(U20, U9; 20, 9)),
        ("20x10", $m!(U20, U10; 20, 10)),
        ("20x11", $m!(U20, U11; 20, 11)),
        ("20x12", $m!(U20, U12; 20, 12)),
        ("20x13", $m!(U20, U13; 20, 13)),
        ("20x14", $m!(U20, U14; 20, 14)),
        ("20x15", $m!(U20, U15; 20, 15)),
        ("20x16", $m!(U20, U16; 20, 16)),
        ("20x17", $m!(U20, U17; 20, 17)),
        ("20x18", $m!(U20, U18; 20, 18)),
        ("20x19", $m!(U20, U19; 20, 19)),
        ("20x20", $m!(U20, U20; 20, 20)),
        ("20x21", $m!(U20, U21; 20, 21)),
        ("20x22", $m!(U20, U22; 20, 22)),
        ("20x23", $m!(U20, U23; 20, 23)),
        ("20x24", $m!(U20, U24; 20, 24)),
        ("20x25", $m!(U20, U25; 20, 25)),
        ("20x26", $m!(U20, U26; 20, 26)),
        ("20x27", $m!(U20, U27; 20, 27)),
        ("20x28", $m!(U20, U28; 20, 28)),
        ("20x29", $m!(U20, U29; 20, 29)),
        ("20x30", $m!(U20, U30; 20, 30)),
        ("20x31", $m!(U20, U31; 20, 31)),
        ("20x32", $m!(U20, U32; 20, 32)),
        ("21x0", $m!(U21, U0; 21, 0)),
        ("21x1", $m!(U21, U1; 21, 1)),
        ("21x2", $m!(U21, U2; 21, 2)),
        ("21x3", $m!(U21, U3; 21, 3)),
        ("21x4", $m!(U21, U4; 21, 4)),
        ("21x5", $m!(U21, U5; 21, 5)),
        ("21x6", $m!(U21, U6; 21, 6)),
        ("21x7", $m!(U21, U7; 21, 7)),
        ("21x8", $m!(U21, U8; 21, 8)),
        ("21x9", $m!(U21, U9; 21, 9)),
        ("21x10", $m!(U21, U10; 21, 10)),
        ("21x11", $m!(U21, U11; 21, 11)),
        ("21x12", $m!(U21, U12; 21, 12)),
        ("21x13", $m!(U21, U13; 21, 13)),
        ("21x14", $m!(U21, U14; 21, 14)),
        ("21x15", $m!(U21, U15; 21, 15)),
        ("21x16", $m!(U21, U16; 21, 16)),
        ("21x17", $m!(U21, U17; 21, 17)),
        ("21x18", $m!(U21, U18; 21, 18)),
        ("21x19", $m!(U21, U19; 21, 19)),
        ("21x20", $m!(U21, U20; 21, 20)),
        ("21x21", $m!(U21, U21; 21, 21)),
        ("21x22", $m!(U21, U22; 21, 22)),
        ("21x23", $m!(U21, U23; 21, 23)),
        ("21x24", $m!(U21, U24; 21, 24)),
        ("21x25", $m!(U21, U25; 21, 25)),
        ("21x26", $m!(U21, U26; 21, 26)),
        ("21x27", $m!(U21, U27; 21, 27)),
        ("21x28", $m!(U21, U28; 21, 28)),
        ("21x29", $m!(U21, U29; 21, 29)),
        ("21x30", $m!(U21, U30; 21, 30)),
        ("21x31", $m!(U21, U31; 21, 31)),
        ("21x32", $m!(U21, U32; 21, 32)),
        ("22x0", $m!(U22, U0; 22, 0)),
        ("22x1", $m!(U22, U1; 22, 1)),
        ("22x2", $m!(U22, U2; 22, 2)),
        ("22x3", $m!(U22, U3; 22, 3)),
        ("22x4", $m!(U22, U4; 22, 4)),
        ("22x5", $m!(U22, U5; 22, 5)),
        ("22x6", $m!(U22, U6; 22, 6)),
        ("22x7", $m!(U22, U7; 22, 7)),
        ("22x8", $m!(U22, U8; 22, 8)),
        ("22x9", $m!(U22, U9; 22, 9)),
        ("22x10", $m!(U22, U10; 22, 10)),
        ("22x11", $m!(U22, U11; 22, 11)),
        ("22x12", $m!(U22, U12; 22, 12)),
        ("22x13", $m!(U22, U13; 22, 13)),
        ("22x14", $m!(U22, U14; 22, 14)),
        ("22x15", $m!(U22, U15; 22, 15)),
        ("22x16", $m!(U22, U16; 22, 16)),
        ("22x17", $m!(U22, U17; 22, 17)),
        ("22x18", $m!(U22, U18; 22, 18)),
        ("22x19", $m!(U22, U19; 22, 19)),
        ("22x20", $m!(U22, U20; 22, 20)),
        ("22x21", $m!(U22, U21; 22, 21)),
        ("22x22", $m!(U22, U22; 22, 22)),
        ("22x23", $m!(U22, U23; 22, 23)),
        ("22x24", $m!(U22, U24; 22, 24)),
        ("22x25", $m!(U22, U25; 22, 25)),
        ("22x26", $m!(U22, U26; 22, 26)),
        ("22x27", $m!(U22, U27; 22, 27)),
        ("22x28", $m!(U22, U28; 22, 28)),
        ("22x29", $m!(U22, U29; 22, 29)),
        ("22x30", $m!(U22, U30; 22, 30)),
        ("22x31", $m!(U22, U31; 22, 31)),
        ("22x32", $m!(U22, U32; 22, 32)),
        ("23x0", $m!(U23, U0; 23, 0)),
        ("23x1", $m!(U23, U1; 23, 1)),
        ("23x2", $m!(U23, U2; 23, 2)),
        ("23x3", $m!(U23, U3; 23, 3)),
        ("23x4", $m!(U23, U4; 23, 4)),
        ("23x5", $m!(U23, U5; 23, 5)),
        ("23x6", $m!(U23, U6; 23, 6)),
        ("23x7", $m!(U23, U7; 23, 7)),
        ("23x8", $m!(U23, U8; 23, 8)),
        ("23x9", $m!(U23, U9; 23, 9)),
        ("23x10", $m!(U23, U10; 23, 10)),
        ("23x11", $m!(U23, U11; 23, 11)),
        ("23x12", $m!(U23, U12; 23, 12)),
        ("23x13", $m!(U23, U13; 23, 13)),
        ("23x14", $m!(U23, U14; 23, 14)),
        ("23x15", $m!(U23, U15; 23, 15)),
        ("23x16", $m!(U23, U16; 23, 16)),
        ("23x17", $m!(U23, U17; 23, 17)),
        ("23x18", $m!(U23, U18; 23, 18)),
        ("23x19", $m!(U23, U19; 23, 19)),
        ("23x20", $m!(U23, U20; 23, 20)),
        ("23x21", $m!(U23, U21; 23, 21)),
        ("23x22", $m!(U23, U22; 23, 22)),
        ("23x23", $m!(U23, U23; 23, 23)),
        ("23x24", $m!(U23, U24; 23, 24)),
        ("23x25", $m!(U23, U25; 23, 25)),
        ("23x26", $m!(U23, U26; 23, 26)),
        ("23x27", $m!(U23, U27; 23, 27)),
        ("23x28", $m!(U23, U28; 23, 28)),
        ("23x29", $m!(U23, U29; 23, 29)),
        ("23x30", $m!(U23, U30; 23, 30)),
        ("23x31", $m!(U23, U31; 23, 31)),
        ("23x32", $m!(U23, U32; 23, 32)),
        ("24x0", $m!(U24, U0; 24, 0)),
        ("24x1", $m!(U24, U1; 24, 1)),
        ("24x2", $m!(U24, U2; 24, 2)),
        ("24x3", $m!(U24, U3; 24, 3)),
        ("24x4", $m!(U24, U4; 24, 4)),
        ("24x5", $m!(U24, U5; 24, 5)),
        ("24x6", $m!(U24, U6; 24, 6)),
        ("24x7", $m!(U24, U7; 24, 7)),
        ("24x8", $m!(U24, U8; 24, 8)),
        ("24x9", $m!(U24, U9; 24, 9)),
        ("24x10", $m!(U24, U10; 24, 10)),
        ("24x11", $m!(U24, U11; 24, 11)),
        ("24x12", $m!(U24, U12; 24, 12)),
        ("24x13", $m!(U24, U13; 24, 13)),
        ("24x14", $m!(U24, U14; 24, 14)),
        ("24x15", $m!(U24, U15; 24, 15)),
        ("24x16", $m!(U24, U16; 24, 16)),
        ("24x17", $m!(U24, U17; 24, 17)),
        ("24x18", $m!(U24, U18; 24, 18)),
        ("24x19", $m!(U24, U19; 24, 19)),
        ("24x20", $m!(U24, U20; 24, 20)),
        ("24x21", $m!(U24, U21; 24, 21)),
        ("24x22", $m!(U24, U22; 24, 22)),
        ("24x23", $m!(U24, U23; 24, 23)),
        ("24x24", $m!(U24, U24; 24, 24)),
        ("24x25", $m!(U24, U25; 24, 25)),
        ("24x26", $m!(U24, U26; 24, 26)),
        ("24x27", $m!(U24, U27; 24, 27)),
        ("24x28", $m!(U24, U28; 24, 28)),
        ("24x29", $m!(U24, U29; 24, 29)),
        ("24x30", $m!(U24, U30; 24, 30)),
        ("24x31", $m!(U24, U31; 24, 31)),
        ("24x32", $m!(U24, U32; 24, 32)),
        ("25x0", $m!(U25, U0; 25, 0)),
        ("25x1", $m!(U25, U1; 25, 1)),
        ("25x2", $m!(U25, U2; 25, 2)),
        ("25x3", $m!(U25, U3; 25, 3)),
        ("25x4", $m!(U25, U4; 25, 4)),
        ("25x5", $m!(U25, U5; 25, 5)),
        ("25x6", $m!(U25, U6; 25, 6)),
        ("25x7", $m!(U25, U7; 25, 7)),
        ("25x8", $m!(U25, U8; 25, 8)),
        ("25x9", $m!(U25, U9; 25, 9)),
        ("25x10", $m!(U25, U10; 25, 10)),
        ("25x11", $m!(U25, U11; 25, 11)),
        ("25x12", $m!(U25, U12; 25, 12)),
        ("25x13", $m!(U25, U13; 25, 13)),
        ("25x14", $m!(U25, U14; 25, 14)),
        ("25x15", $m!(U25, U15; 25, 15)),
        ("25x16", $m!(U25, U16; 25, 16)),
        ("25x17", $m!(U25, U17; 25, 17)),
        ("25x18", $m!(U25, U18; 25, 18)),
        ("25x19", $m!(U25, U19; 25, 19)),
        ("25x20", $m!(U25, U20; 25, 20)),
        ("25x21", $m!(U25, U21; 25, 21)),
        ("25x22", $m!(U25, U22; 25, 22)),
        ("25x23", $m!(U25, U23; 25, 23)),
        ("25x24", $m!(U25, U24; 25, 24)),
        ("25x25", $m!(U25, U25; 25, 25)),
        ("25x26", $m!(U25, U26; 25, 26)),
        ("25x27", $m!(U25, U27; 25, 27)),
        ("25x28", $m!(U25, U28; 25, 28)),
        ("25x29", $m!(U25, U29; 25, 29)),
        ("25x30", $m!(U25, U30; 25, 30)),
        ("25x31", $m!(U25, U31; 25, 31)),
        ("25x32", $m!(U25, U32; 25, 32)),
        ("26x0", $m!(U26, U0; 26, 0)),
        ("26x1", $m!(U26, U1; 26, 1)),
        ("26x2", $m!(U26, U2; 26, 2)),
        ("26x3", $m!(U26, U3; 26, 3)),
        ("26x4", $m!(U26, U4; 26, 4)),
        ("26x5", $m!(U26, U5; 26, 5)),
        ("26x6", $m!(U26, U6; 26, 6)),
        ("26x7", $m!(U26, U7; 26, 7)),
        ("26x8", $m!(U26, U8; 26, 8)),
        ("26x9", $m!(U26, U9; 26, 9)),
        ("26x10", $m!(U26, U10; 26, 10)),
        ("26x11", $m!(U26, U11; 26, 11)),
        ("26x12", $m!(U26, U12; 26, 12)),
        ("26x13", $m!(U26, U13; 26, 13)),
        ("26x14", $m!(U26, U14; 26, 14)),
        ("26x15", $m!(U26, U15; 26, 15)),
        ("26x16", $m!(U26, U16; 26, 16)),
        ("26x17", $m!(U26, U17; 26, 17)),
        ("26x18", $m!(U26, U18; 26, 18)),
        ("26x19", $m!(U26, U19; 26, 19)),
        ("26x20", $m!(U26, U20; 26, 20)),
        ("26x21", $m!(U26, U21; 26, 21)),
        ("26x22", $m!(U26, U22; 26, 22)),
        ("26x23", $m!(U26, U23; 26, 23)),
        ("26x24", $m!(U26, U24; 26, 24)),
        ("26x25", $m!(U26, U25; 26, 25)),
        ("26x26", $m!(U26, U26; 26, 26)),
        ("26x27", $m!(U26, U27; 26, 27)),
        ("26x28", $m!(U26, U28; 26, 28)),
        ("26x29", $m!(U26, U29; 26, 29)),
        ("26x30", $m!(U26, U30; 26, 30)),
        ("26x31", $m!(U26, U31; 26, 31)),
        ("26x32", $m!(U26, U32; 26, 32)),
        ("27x0", $m!(U27, U0; 27, 0)),
        ("27x1", $m!(U27, U1; 27, 1)),
        ("27x2", $m!(U27, U2; 27, 2)),
        ("27x3", $m!(U27, U3; 27, 3)),
        ("27x4", $m!(U27, U4; 27, 4)),
        ("27x5", $m!(U27, U5; 27, 5)),
        ("27x6", $m!(U27, U6; 27, 6)),
        ("27x7", $m!(U27, U7; 27, 7)),
        ("27x8", $m!(U27, U8; 27, 8)),
        ("27x9", $m!(U27, U9; 27, 9)),
        ("27x10", $m!(U27, U10; 27, 10)),
        ("27x11", $m!(U27, U11; 27, 11)),
        ("27x12", $m!(U27, U12; 27, 12)),
        ("27x13", $m!(U27, U13; 27, 13)),
        ("27x14", $m!(U27, U14; 27, 14)),
        ("27x15", $m!(U27, U15; 27, 15)),
        ("27x16", $m!(U27, U16; 27, 16)),
        ("27x17", $m!(U27, U17; 27, 17)),
        ("27x18", $m!(U27, U18; 27, 18)),
        ("27x19", $m!(U27, U19; 27, 19)),
        ("27x20", $m!(U27, U20; 27, 20)),
        ("27x21", $m!(U27, U21; 27, 21)),
        ("27x22", $m!(U27, U22; 27, 22)),
        ("27x23", $m!(U27, U23; 27, 23)),
        ("27x24", $m!(U27, U24; 27, 24)),
        ("27x25", $m!(U27, U25; 27, 25)),
        ("27x26", $m!(U27, U26; 27, 26)),
        ("27x27", $m!(U27, U27; 27, 27)),
        ("27x28", $m!(U27, U28; 27, 28)),
        ("27x29", $m!(U27, U29; 27, 29)),
        ("27x30", $m!(U27, U30; 27, 30)),
        ("27x31", $m!(U27, U31; 27, 31)),
        ("27x32", $m!(U27, U32; 27, 32)),
        ("28x0", $m!(U28, U0; 28, 0)),
        ("28x1", $m!(U28, U1; 28, 1)),
        ("28x2", $m!(U28, U2; 28, 2)),
        ("28x3", $m!(U28, U3; 28, 3)),
        ("28x4", $m!(U28, U4; 28, 4)),
        ("28x5", $m!(U28, U5; 28, 5)),
        ("28x6", $m!(U28, U6; 28, 6)),
        ("28x7", $m!(U28, U7; 28, 7)),
        ("28x8", $m!(U28, U8; 28, 8)),
        ("28x9", $m!(U28, U9; 28, 9)),
        ("28x10", $m!(U28, U10; 28, 10)),
        ("28x11", $m!(U28, U11; 28, 11)),
        ("28x12", $m!(U28, U12; 28, 12)),
        ("28x13", $m!(U28, U13; 28, 13)),
        ("28x14", $m!(U28, U14; 28, 14)),
        ("28x15", $m!(U28, U15; 28, 15)),
        ("28x16", $m!(U28, U16; 28, 16)),
        ("28x17", $m!(U28, U17; 28, 17)),
        ("28x18", $m!(U28, U18; 28, 18)),
        ("28x19", $m!(U28, U19; 28, 19)),
        ("28x20", $m!(U28, U20; 28, 20)),
        ("28x21", $m!(U28, U21; 28, 21)),
        ("28x22", $m!(U28, U22; 28, 22)),
        ("28x23", $m!(U28, U23; 28, 23)),
        ("28x24", $m!(U28, U24; 28, 24)),
        ("28x25", $m!(U28, U25; 28, 25)),
        ("28x26", $m!(U28, U26; 28, 26)),
        ("28x27", $m!(U28, U27; 28, 27)),
        ("28x28", $m!(U28, U28; 28, 28)),
        ("28x29", $m!(U28, U29; 28, 29)),
        ("28x30", $m!(U28, U30; 28, 30)),
        ("28x31", $m!(U28, U31; 28, 31)),
        ("28x32", $m!(U28, U32; 28, 32)),
        ("29x0", $m!(U29, U0; 29, 0)),
        ("29x1", $m!(U29, U1; 29, 1)),
        ("29x2", $m!(U29, U2; 29, 2)),
        ("29x3", $m!(U29, U3; 29, 3)),
        ("29x4", $m!(U29, U4; 29, 4)),
        ("29x5", $m!(U29, U5; 29, 5)),
        ("29x6", $m!(U29, U6; 29, 6)),
        ("29x7", $m!(U29, U7; 29, 7)),
        ("29x8", $m!(U29, U8; 29, 8)),
        ("29x9", $m!(U29, U9; 29, 9)),
        ("29x10", $m!(U29, U10; 29, 10)),
        ("29x11", $m!(U29, U11; 29, 11)),
        ("29x12", $m!(U29, U12; 29, 12)),
        ("29x13", $m!(U29, U13; 29, 13)),
        ("29x14", $m!(U29, U14; 29, 14)),
        ("29x15", $m!(U29, U15; 29, 15)),
        ("29x16", $m!(U29, U16; 29, 16)),
        ("29x17", $m!(U29, U17; 29, 17)),
        ("29x18", $m!(U29, U18; 29, 18)),
        ("29x19", $m!(U29, U19; 29, 19)),
        ("29x20", $m!(U29, U20; 29, 20)),
        ("29x21", $m!(U29, U21; 29, 21)),
        ("29x22", $m!(U29, U22; 29, 22)),
        ("29x23", $m!(U29, U23; 29, 23)),
        ("29x24", $m!(U29, U24; 29, 24)),
        ("29x25", $m!(U29, U25; 29, 25)),
        ("29x26", $m!(U29, U26; 29, 26)),
        ("29x27", $m!(U29, U27; 29, 27)),
        ("29x28", $m!(U29, U28; 29, 28)),
        ("29x29", $m!(U29, U29; 29, 29)),
        ("29x30", $m!(U29, U30; 29, 30)),
        ("29x31", $m!(U29, U31; 29, 31)),
        ("29x32", $m!(U29, U32; 29, 32)),
        ("30x0", $m!(U30, U0; 30, 0)),
        ("30x1", $m!(U30, U1; 30, 1)),
        ("30x2", $m!(U30, U2; 30, 2)),
        ("30x3", $m!(U30, U3; 30, 3)),
        ("30x4", $m!(U30, U4; 30, 4)),
        ("30x5", $m!(U30, U5; 30, 5)),
        ("30x6", $m!(U30, U6; 30, 6)),
        ("30x7", $m!(U30, U7; 30, 7)),
        ("30x8", $m!(U30, U8; 30, 8)),
        ("30x9", $m!(U30, U9; 30, 9)),
        ("30x10", $m!(U30, U10; 30, 10)),
        ("30x11", $m!(U30, U11; 30, 11)),
        ("30x12", $m!(U30, U12; 30, 12)),
        ("30x13", $m!(U30, U13; 30, 13)),
        ("30x14", $m!(U30, U14; 30, 14)),
        ("30x15", $m!(U30, U15; 30, 15)),
        ("30x16", $m!(U30, U16; 30, 16)),
        ("30x17", $m!(U30, U17; 30, 17)),
        ("30x18", $m!(U30, U18; 30, 18)),
        ("30x19", $m!(U30, U19; 30, 19)),
        ("30x20", $m!(U30, U20; 30, 20)),
        ("30x21", $m!(U30, U21; 30, 21)),
        ("30x22", $m!(U30, U22; 30, 22)),
        ("30x23", $m!(U30, U23; 30, 23)),
        ("30x24", $m!(U30, U24; 30, 24)),
        ("30x25", $m!(U30, U25; 30, 25)),
        ("30x26", $m!(U30, U26; 30, 26)),
        ("30x27", $m!(U30, U27; 30, 27)),
        ("30x28", $m!(U30, U28; 30, 28)),
        ("30x29", $m!(U30, U29; 30, 29)),
        ("30x30", $m!(U30, U30; 30, 30)),
        ("30x31", $m!(U30, U31; 30, 31)),
        ("30x32", $m!(U30, U32; 30, 32)),
        ("31x0", $m!(U31, U0; 31, 0)),
        ("31x1", $m!(U31, U1; 31, 1)),
        ("31x2", $m!(U31, U2; 31, 2)),
        ("31x3", $m!(U31, U3; 31, 3)),
        ("31x4", $m!(U31, U4; 31, 4)),
        ("31x5", $m!(U31, U5; 31, 5)),
        ("31x6", $m!(U31, U6; 31, 6)),
        ("31x7", $m!(U31, U7; 31, 7)),
        ("31x8", $m!(U31, U8; 31, 8)),
        ("31x9", $m!(U31, U9; 31, 9)),
        ("31x10", $m!(U31, U10; 31, 10)),
        ("31x11", $m!(U31, U11; 31, 11)),
        ("31x12", $m!(U31, U12; 31, 12)),
        ("31x13", $m!(U31, U13; 31, 13)),
        ("31x14", $m!(U31, U14; 31, 14)),
        ("31x15", $m!(U31, U15; 31, 15)),
        ("31x16", $m!(U31, U16; 31, 16)),
        ("31x17", $m!(U31, U17; 31, 17)),
        ("31x18", $m!(U31, U18; 31, 18)),
        ("31x19", $m!(U31, U19; 31, 19)),
        ("31x20", $m!(U31, U20; 31, 20)),
        ("31x21", $m!(U31, U21; 31, 21)),
        ("31x22", $m!(U31, U22; 31, 22)),
        ("31x23", $m!(U31, U23; 31, 23)),
        ("31x24", $m!(U31, U24; 31, 24)),
        ("31x25", $m!(U31, U25; 31, 25)),
        ("31x26", $m!(U31, U26; 31, 26)),
        ("31x27", $m!(U31, U27; 31, 27)),
        ("31x28", $m!(U31, U28; 31, 28)),
        ("31x29", $m!(U31, U29; 31, 29)),
        ("31x30", $m!(U31, U30; 31, 30)),
        ("31x31", $m!(U31, U31; 31, 31)),
        ("31x32", $m!(U31, U32; 31, 32)),
        ("32x0", $m!(U32, U0; 32, 0)),
        ("32x1", $m!(U32, U1; 32, 1)),
        ("32x2", $m!(U32, U2; 32, 2)),
        ("32x3", $m!(U32, U3; 32, 3)),
        ("32x4", $m!(U32, U4; 32, 4)),
        ("32x5", $m!(U32, U5; 32, 5)),
        ("32x6", $m!(U32, U6; 32, 6)),
        ("32x7", $m!(U32, U7; 32, 7)),
        ("32x8", $m!(U32, U8; 32, 8)),
        ("32x9", $m!(U32, U9; 32, 9)),
        ("32x10", $m!(U32, U10; 32, 10)),
        ("32x11", $m!(U32, U11; 32, 11)),
        ("32x12", $m!(U32, U12; 32, 12)),
        ("32x13", $m!(U32, U13; 32, 13)),
        ("32x14", $m!(U32, U14; 32, 14)),
        ("32x15", $m!(U32, U15; 32, 15)),
        ("32x16", $m!(U32, U16; 32, 16)),
        ("32x17", $m!(U32, U17; 32, 17)),
        ("32x18", $m!(U32, U18; 32, 18)),
        ("32x19", $m!(U32, U19; 32, 19)),
        ("32x20", $m!(U32, U20; 32, 20)),
        ("32x21", $m!(U32, U21; 32, 21)),
        ("32x22", $m!(U32, U22; 32, 22)),
        ("32x23", $m!(U32, U23; 32, 23)),
        ("32x24", $m!(U32, U24; 32, 24)),
        ("32x25", $m!(U32, U25; 32, 25)),
        ("32x26", $m!(U32, U26; 32, 26)),
        ("32x27", $m!(U32, U27; 32, 27)),
        ("32x28", $m!(U32, U28; 32, 28)),
        ("32x29", $m!(U32, U29; 32, 29)),
        ("32x30", $m!(U32, U30; 32, 30)),
        ("32x31", $m!(U32, U31; 32, 31)),
        ("32x32", $m!(U32, U32; 32, 32)),
    ] };
}

/// shapes with an edge-case dimension or square
#[macro_export]
macro_rules! cb_spread_pairs {
    ($m:ident) => { &[
        ("0x0", $m!(U0, U0; 0, 0)),
        ("0x1", $m!(U0, U1; 0, 1)),
        ("0x2", $m!(U0, U2; 0, 2)),
        ("0x3", $m!(U0, U3; 0, 3)),
        ("0x4", $m!(U0, U4; 0, 4)),
        ("0x5", $m!(U0, U5; 0, 5)),
        ("0x7", $m!(U0, U7; 0, 7)),
        ("0x8", $m!(U0, U8; 0, 8)),
        ("0x13", $m!(U0, U13; 0, 13)),
        ("0x16", $m!(U0, U16; 0, 16)),
        ("0x17", $m!(U0, U17; 0, 17)),
        ("0x26", $m!(U0, U26; 0, 26)),
        ("0x31", $m!(U0, U31; 0, 31)),
        ("0x32", $m!(U0, U32; 0, 32)),
        ("1x0", $m!(U1, U0; 1, 0)),
        ("1x1", $m!(U1, U1; 1, 1)),
        ("1x2", $m!(U1, U2; 1, 2)),
        ("1x3", $m!(U1, U3; 1, 3)),
        ("1x4", $m!(U1, U4; 1, 4)),
        ("1x5", $m!(U1, U5; 1, 5)),
        ("1x6", $m!(U1, U6; 1, 6)),
        ("1x7", $m!(U1, U7; 1, 7)),
        ("1x8", $m!(U1, U8; 1, 8)),
        ("1x9", $m!(U1, U9; 1, 9)),
        ("1x10", $m!(U1, U10; 1, 10)),
        ("1x11", $m!(U1, U11; 1, 11)),
        ("1x12", $m!(U1, U12; 1, 12)),
        ("1x13", $m!(U1, U13; 1, 13)),
        ("1x14", $m!(U1, U14; 1, 14)),
        ("1x15", $m!(U1, U15; 1, 15)),
        ("1x16", $m!(U1, U16; 1, 16)),
        ("1x17", $m!(U1, U17; 1, 17)),
        ("1x18", $m!(U1, U18; 1, 18)),
        ("1x19", $m!(U1, U19; 1, 19)),
        ("1x20", $m!(U1, U20; 1, 20)),
        ("1x21", $m!(U1, U21; 1, 21)),
        ("1x22", $m!(U1, U22; 1, 22)),
        ("1x23", $m!(U1, U23; 1, 23)),
        ("1x24", $m!(U1, U24; 1, 24)),
        ("1x25", $m!(U1, U25; 1, 25)),
        ("1x26", $m!(U1, U26; 1, 26)),
        ("1x27", $m!(U1, U27; 1, 27)),
        ("1x28", $m!(U1, U28; 1, 28)),
        ("1x29", $m!(U1, U29; 1, 29)),
        ("1x30", $m!(U1, U30; 1, 30)),
        ("1x31", $m!(U1, U31; 1, 31)),
        ("1x32", $m!(U1, U32; 1, 32)),
        ("2x0", $m!(U2, U0; 2, 0)),
        ("2x1", $m!(U2, U1; 2, 1)),
        ("2x2", $m!(U2, U2; 2, 2)),
        ("2x3", $m!(U2, U3; 2, 3)),
        ("2x4", $m!(U2, U4; 2, 4)),
        ("2x5", $m!(U2, U5; 2, 5)),
        ("2x7", $m!(U2, U7; 2, 7)),
        ("2x8", $m!(U2, U8; 2, 8)),
        ("2x16", $m!(U2, U16; 2, 16)),
        ("2x17", $m!(U2, U17; 2, 17)),
        ("2x30", $m!(U2, U30; 2, 30)),
        ("2x31", $m!(U2, U31; 2, 31)),
        ("2x32", $m!(U2, U32; 2, 32)),
        ("3x0", $m!(U3, U0; 3, 0)),
        ("3x1", $m!(U3, U1; 3, 1)),
        ("3x2", $m!(U3, U2; 3, 2)),
        ("3x3", $m!(U3, U3; 3, 3)),
        ("3x4", $m!(U3, U4; 3, 4)),
        ("3x5", $m!(U3, U5; 3, 5)),
        ("3x6", $m!(U3, U6; 3, 6)),
        ("3x7", $m!(U3, U7; 3, 7)),
        ("3x8", $m!(U3, U8; 3, 8)),
        ("3x16", $m!(U3, U16; 3, 16)),
        ("3x17", $m!(U3, U17; 3, 17)),
        ("3x19", $m!(U3, U19; 3, 19)),
        ("3x31", $m!(U3, U31; 3, 31)),
        ("3x32", $m!(U3, U32; 3, 32)),
        ("4x0", $m!(U4, U0; 4, 0)),
        ("4x1", $m!(U4, U1; 4, 1)),
        ("4x2", $m!(U4, U2; 4, 2)),
        ("4x3", $m!(U4, U3; 4, 3)),
        ("4x4", $m!(U4, U4; 4, 4)),
        ("4x5", $m!(U4, U5; 4, 5)),
        ("4x7", $m!(U4, U7; 4, 7)),
        ("4x8", $m!(U4, U8; 4, 8)),
        ("4x16", $m!(U4, U16; 4, 16)),
        ("4x17", $m!(U4, U17; 4, 17)),
        ("4x21", $m!(U4, U21; 4, 21)),
        ("4x31", $m!(U4, U31; 4, 31)),
        ("4x32", $m!(U4, U32; 4, 32)),
        ("5x0", $m!(U5, U0; 5, 0)),
        ("5x1", $m!(U5, U1; 5, 1)),
        ("5x2", $m!(U5, U2; 5, 2)),
        ("5x3", $m!(U5, U3; 5, 3)),
        ("5x4", $m!(U5, U4; 5, 4)),
        ("5x5", $m!(U5, U5; 5, 5)),
        ("5x7", $m!(U5, U7; 5, 7)),
        ("5x8", $m!(U5, U8; 5, 8)),
        ("5x10", $m!(U5, U10; 5, 10)),
        ("5x16", $m!(U5, U16; 5, 16)),
        ("5x17", $m!(U5, U17; 5, 17)),
        ("5x23", $m!(U5, U23; 5, 23)),
        ("5x31", $m!(U5, U31; 5, 31)),
        ("5x32", $m!(U5, U32; 5, 32)),
        ("6x1", $m!(U6, U1; 6, 1)),
        ("6x6", $m!(U6, U6; 6, 6)),
        ("6x12", $m!(U6, U12; 6, 12)),
        ("6x25", $m!(U6, U25; 6, 25)),
        ("7x0", $m!(U7, U0; 7, 0)),
        ("7x1", $m!(U7, U1; 7, 1)),
        ("7x2", $m!(U7, U2; 7, 2)),
        ("7x3", $m!(U7, U3; 7, 3)),
        ("7x4", $m!(U7, U4; 7, 4)),
        ("7x5", $m!(U7, U5; 7, 5)),
        ("7x7", $m!(U7, U7; 7, 7)),
        ("7x8", $m!(U7, U8; 7, 8)),
        ("7x14", $m!(U7, U14; 7, 14)),
        ("7x16", $m!(U7, U16; 7, 16)),
        ("7x17", $m!(U7, U17; 7, 17)),
        ("7x27", $m!(U7, U27; 7, 27)),
        ("7x31", $m!(U7, U31; 7, 31)),
        ("7x32", $m!(U7, U32; 7, 32)),
        ("8x0", $m!(U8, U0; 8, 0)),
        ("8x1", $m!(U8, U1; 8, 1)),
        ("8x2", $m!(U8, U2; 8, 2)),
        ("8x3", $m!(U8, U3; 8, 3)),
        ("8x4", $m!(U8, U4; 8, 4)),
        ("8x5", $m!(U8, U5; 8, 5)),
        ("8x7", $m!(U8, U7; 8, 7)),
        ("8x8", $m!(U8, U8; 8, 8)),
        ("8x16", $m!(U8, U16; 8, 16)),
        ("8x17", $m!(U8, U17; 8, 17)),
        ("8x29", $m!(U8, U29; 8, 29)),
        ("8x31", $m!(U8, U31; 8, 31)),
        ("8x32", $m!(U8, U32; 8, 32)),
        ("9x1", $m!(U9, U1; 9, 1)),
        ("9x5", $m!(U9, U5; 9, 5)),
        ("9x9", $m!(U9, U9; 9, 9)),
        ("9x18", $m!(U9, U18; 9, 18)),
        ("9x31", $m!(U9, U31; 9, 31)),
        ("10x1", $m!(U10, U1; 10, 1)),
        ("10x7", $m!(U10, U7; 10, 7)),
        ("10x10", $m!(U10, U10; 10, 10)),
        ("10x20", $m!(U10, U20; 10, 20)),
        ("11x1", $m!(U11, U1; 11, 1)),
        ("11x9", $m!(U11, U9; 11, 9)),
        ("11x11", $m!(U11, U11; 11, 11)),
        ("11x22", $m!(U11, U22; 11, 22)),
        ("12x1", $m!(U12, U1; 12, 1)),
        ("12x11", $m!(U12, U11; 12, 11)),
        ("12x12", $m!(U12, U12; 12, 12)),
        ("12x24", $m!(U12, U24; 12, 24)),
        ("13x0", $m!(U13, U0; 13, 0)),
        ("13x1", $m!(U13, U1; 13, 1)),
        ("13x13", $m!(U13, U13; 13, 13)),
        ("13x26", $m!(U13, U26; 13, 26)),
        ("14x1", $m!(U14, U1; 14, 1)),
        ("14x2", $m!(U14, U2; 14, 2)),
        ("14x14", $m!(U14, U14; 14, 14)),
        ("14x15", $m!(U14, U15; 14, 15)),
        ("14x28", $m!(U14, U28; 14, 28)),
        ("15x1", $m!(U15, U1; 15, 1)),
        ("15x4", $m!(U15, U4; 15, 4)),
        ("15x15", $m!(U15, U15; 15, 15)),
        ("15x17", $m!(U15, U17; 15, 17)),
        ("15x30", $m!(U15, U30; 15, 30)),
        ("16x0", $m!(U16, U0; 16, 0)),
        ("16x1", $m!(U16, U1; 16, 1)),
        ("16x2", $m!(U16, U2; 16, 2)),
        ("16x3", $m!(U16, U3; 16, 3)),
        ("16x4", $m!(U16, U4; 16, 4)),
        ("16x5", $m!(U16, U5; 16, 5)),
        ("16x6", $m!(U16, U6; 16, 6)),
        ("16x7", $m!(U16, U7; 16, 7)),
        ("16x8", $m!(U16, U8; 16, 8)),
        ("16x16", $m!(U16, U16; 16, 16)),
        ("16x17", $m!(U16, U17; 16, 17)),
        ("16x19", $m!(U16, U19; 16, 19)),
        ("16x31", $m!(U16, U31; 16, 31)),
        ("16x32", $m!(U16, U32; 16, 32)),
        ("17x0", $m!(U17, U0; 17, 0)),
        ("17x1", $m!(U17, U1; 17, 1)),
        ("17x2", $m!(U17, U2; 17, 2)),
        ("17x3", $m!(U17, U3; 17, 3)),
        ("17x4", $m!(U17, U4; 17, 4)),
        ("17x5", $m!(U17, U5; 17, 5)),
        ("17x7", $m!(U17, U7; 17, 7)),
        ("17x8", $m!(U17, U8; 17, 8)),
        ("17x16", $m!(U17, U16; 17, 16)),
        ("17x17", $m!(U17, U17; 17, 17)),
        ("17x21", $m!(U17, U21; 17, 21)),
        ("17x31", $m!(U17, U31; 17, 31)),
        ("17x32", $m!(U17, U32; 17, 32)),
        ("18x1", $m!(U18, U1; 18, 1)),
        ("18x10", $m!(U18, U10; 18, 10)),
        ("18x18", $m!(U18, U18; 18, 18)),
        ("18x23", $m!(U18, U23; 18, 23)),
        ("19x1", $m!(U19, U1; 19, 1)),
        ("19x12", $m!(U19, U12; 19, 12)),
        ("19x19", $m!(U19, U19; 19, 19)),
        ("19x25", $m!(U19, U25; 19, 25)),
        ("20x1", $m!(U20, U1; 20, 1)),
        ("20x14", $m!(U20, U14; 20, 14)),
        ("20x20", $m!(U20, U20; 20, 20)),
        ("20x27", $m!(U20, U27; 20, 27)),
        ("21x1", $m!(U21, U1; 21, 1)),
        ("21x3", $m!(U21, U3; 21, 3)),
        ("21x16", $m!(U21, U16; 21, 16)),
        ("21x21", $m!(U21, U21; 21, 21)),
        ("21x29", $m!(U21, U29; 21, 29)),
        ("22x1", $m!(U22, U1; 22, 1)),
        ("22x5", $m!(U22, U5; 22, 5)),
        ("22x18", $m!(U22, U18; 22, 18)),
        ("22x22", $m!(U22, U22; 22, 22)),
        ("22x31", $m!(U22, U31; 22, 31)),
        ("23x1", $m!(U23, U1; 23, 1)),
        ("23x7", $m!(U23, U7; 23, 7)),
        ("23x20", $m!(U23, U20; 23, 20)),
        ("23x23", $m!(U23, U23; 23, 23)),
        ("24x1", $m!(U24, U1; 24, 1)),
        ("24x9", $m!(U24, U9; 24, 9)),
        ("24x22", $m!(U24, U22; 24, 22)),
        ("24x24", $m!(U24, U24; 24, 24)),
        ("25x1", $m!(U25, U1; 25, 1)),
        ("25x11", $m!(U25, U11; 25, 11)),
        ("25x24", $m!(U25, U24; 25, 24)),
        ("25x25", $m!(U25, U25; 25, 25)),
        ("26x0", $m!(U26, U0; 26, 0)),
        ("26x1", $m!(U26, U1; 26, 1)),
        ("26x13", $m!(U26, U13; 26, 13)),
        ("26x26", $m!(U26, U26; 26, 26)),
        ("27x1", $m!(U27, U1; 27, 1)),
        ("27x2", $m!(U27, U2; 27, 2)),
        ("27x15", $m!(U27, U15; 27, 15)),
        ("27x27", $m!(U27, U27; 27, 27)),
        ("27x28", $m!(U27, U28; 27, 28)),
        ("28x1", $m!(U28, U1; 28, 1)),
        ("28x4", $m!(U28, U4; 28, 4)),
        ("28x17", $m!(U28, U17; 28, 17)),
        ("28x28", $m!(U28, U28; 28, 28)),
        ("28x30", $m!(U28, U30; 28, 30)),
        ("29x1", $m!(U29, U1; 29, 1)),
        ("29x6", $m!(U29, U6; 29, 6)),
        ("29x19", $m!(U29, U19; 29, 19)),
        ("29x29", $m!(U29, U29; 29, 29)),
        ("29x32", $m!(U29, U32; 29, 32)),
        ("30x1", $m!(U30, U1; 30, 1)),
        ("30x8", $m!(U30, U8; 30, 8)),
        ("30x21", $m!(U30, U21; 30, 21)),
        ("30x30", $m!(U30, U30; 30, 30)),
        ("31x0", $m!(U31, U0; 31, 0)),
        ("31x1", $m!(U31, U1; 31, 1)),
        ("31x2", $m!(U31, U2; 31, 2)),
        ("31x3", $m!(U31, U3; 31, 3)),
        ("31x4", $m!(U31, U4; 31, 4)),
        ("31x5", $m!(U31, U5; 31, 5)),
        ("31x7", $m!(U31, U7; 31, 7)),
        ("31x8", $m!(U31, U8; 31, 8)),
        ("31x10", $m!(U31, U10; 31, 10)),
        ("31x16", $m!(U31, U16; 31, 16)),
        ("31x17", $m!(U31, U17; 31, 17)),
        ("31x23", $m!(U31, U23; 31, 23)),
        ("31x31", $m!(U31, U31; 31, 31)),
        ("31x32", $m!(U31, U32; 31, 32)),
        ("32x0", $m!(U32, U0; 32, 0)),
        ("32x1", $m!(U32, U1; 32, 1)),
        ("32x2", $m!(U32, U2; 32, 2)),
        ("32x3", $m!(U32, U3; 32, 3)),
        ("32x4", $m!(U32, U4; 32, 4)),
        ("32x5", $m!(U32, U5; 32, 5)),
        ("32x7", $m!(U32, U7; 32, 7)),
        ("32x8", $m!(U32, U8; 32, 8)),
        ("32x12", $m!(U32, U12; 32, 12)),
        ("32x16", $m!(U32, U16; 32, 16)),
        ("32x17", $m!(U32, U17; 32, 17)),
        ("32x25", $m!(U32, U25; 32, 25)),
        ("32x31", $m!(U32, U31; 32, 31)),
        ("32x32", $m!(U32, U32; 32, 32)),
    ] };
}

/// a spread of shapes
#[macro_export]
macro_rules! cb_few_pairs {
    ($m:ident) => { &[
        ("0x0", $m!(U0, U0; 0, 0)),
        ("0x1", $m!(U0, U1; 0, 1)),
        ("0x2", $m!(U0, U2; 0, 2)),
        ("0x3", $m!(U0, U3; 0, 3)),
        ("0x4", $m!(U0, U4; 0, 4)),
        ("0x5", $m!(U0, U5; 0, 5)),
        ("0x7", $m!(U0, U7; 0, 7)),
        ("0x8", $m!(U0, U8; 0, 8)),
        ("0x16", $m!(U0, U16; 0, 16)),
        ("0x17", $m!(U0, U17; 0, 17)),
        ("0x31", $m!(U0, U31; 0, 31)),
        ("0x32", $m!(U0, U32; 0, 32)),
        ("1x0", $m!(U1, U0; 1, 0)),
        ("1x1", $m!(U1, U1; 1, 1)),
        ("1x2", $m!(U1, U2; 1, 2)),
        ("1x3", $m!(U1, U3; 1, 3)),
        ("1x4", $m!(U1, U4; 1, 4)),
        ("1x5", $m!(U1, U5; 1, 5)),
        ("1x7", $m!(U1, U7; 1, 7)),
        ("1x8", $m!(U1, U8; 1, 8)),
        ("1x16", $m!(U1, U16; 1, 16)),
        ("1x17", $m!(U1, U17; 1, 17)),
        ("1x31", $m!(U1, U31; 1, 31)),
        ("1x32", $m!(U1, U32; 1, 32)),
        ("2x0", $m!(U2, U0; 2, 0)),
        ("2x1", $m!(U2, U1; 2, 1)),
        ("2x2", $m!(U2, U2; 2, 2)),
        ("2x3", $m!(U2, U3; 2, 3)),
        ("2x4", $m!(U2, U4; 2, 4)),
        ("2x5", $m!(U2, U5; 2, 5)),
        ("2x7", $m!(U2, U7; 2, 7)),
        ("2x8", $m!(U2, U8; 2, 8)),
        ("2x16", $m!(U2, U16; 2, 16)),
        ("2x17", $m!(U2, U17; 2, 17)),
        ("2x31", $m!(U2, U31; 2, 31)),
        ("2x32", $m!(U2, U32; 2, 32)),
        ("3x0", $m!(U3, U0; 3, 0)),
        ("3x1", $m!(U3, U1; 3, 1)),
        ("3x2", $m!(U3, U2; 3, 2)),
        ("3x3", $m!(U3, U3; 3, 3)),
        ("3x4", $m!(U3, U4; 3, 4)),
        ("3x5", $m!(U3, U5; 3, 5)),
        ("3x7", $m!(U3, U7; 3, 7)),
        ("3x8", $m!(U3, U8; 3, 8)),
        ("3x16", $m!(U3, U16; 3, 16)),
        ("3x17", $m!(U3, U17; 3, 17)),
        ("3x31", $m!(U3, U31; 3, 31)),
        ("3x32", $m!(U3, U32; 3, 32)),
        ("4x0", $m!(U4, U0; 4, 0)),
        ("4x1", $m!(U4, U1; 4, 1)),
        ("4x2", $m!(U4, U2; 4, 2)),
        ("4x3", $m!(U4, U3; 4, 3)),
        ("4x4", $m!(U4, U4; 4, 4)),
        ("4x5", $m!(U4, U5; 4, 5)),
        ("4x7", $m!(U4, U7; 4, 7)),
        ("4x8", $m!(U4, U8; 4, 8)),
        ("4x16", $m!(U4, U16; 4, 16)),
        ("4x17", $m!(U4, U17; 4, 17)),
        ("4x31", $m!(U4, U31; 4, 31)),
        ("4x32", $m!(U4, U32; 4, 32)),
        ("5x0", $m!(U5, U0; 5, 0)),
        ("5x1", $m!(U5, U1; 5, 1)),
        ("5x2", $m!(U5, U2; 5, 2)),
        ("5x3", $m!(U5, U3; 5, 3)),
        ("5x4", $m!(U5, U4; 5, 4)),
        ("5x5", $m!(U5, U5; 5, 5)),
        ("5x7", $m!(U5, U7; 5, 7)),
        ("5x8", $m!(U5, U8; 5, 8)),
        ("5x16", $m!(U5, U16; 5, 16)),
        ("5x17", $m!(U5, U17; 5, 17)),
        ("5x31", $m!(U5, U31; 5, 31)),
        ("5x32", $m!(U5, U32; 5, 32)),
        ("7x0", $m!(U7, U0; 7, 0)),
        ("7x1", $m!(U7, U1; 7, 1)),
        ("7x2", $m!(U7, U2; 7, 2)),
        ("7x3", $m!(U7, U3; 7, 3)),
        ("7x4", $m!(U7, U4; 7, 4)),
        ("7x5", $m!(U7, U5; 7, 5)),
        ("7x7", $m!(U7, U7; 7, 7)),
        ("7x8", $m!(U7, U8; 7, 8)),
        ("7x16", $m!(U7, U16; 7, 16)),
        ("7x17", $m!(U7, U17; 7, 17)),
        ("7x31", $m!(U7, U31; 7, 31)),
        ("7x32", $m!(U7, U32; 7, 32)),
        ("8x0", $m!(U8, U0; 8, 0)),
        ("8x1", $m!(U8, U1; 8, 1)),
        ("8x2", $m!(U8, U2; 8, 2)),
        ("8x3", $m!(U8, U3; 8, 3)),
        ("8x4", $m!(U8, U4; 8, 4)),
        ("8x5", $m!(U8, U5; 8, 5)),
        ("8x7", $m!(U8, U7; 8, 7)),
        ("8x8", $m!(U8, U8; 8, 8)),
        ("8x16", $m!(U8, U16; 8, 16)),
        ("8x17", $m!(U8, U17; 8, 17)),
        ("8x31", $m!(U8, U31; 8, 31)),
        ("8x32", $m!(U8, U32; 8, 32)),
        ("16x0", $m!(U16, U0; 16, 0)),
        ("16x1", $m!(U16, U1; 16, 1)),
        ("16x2", $m!(U16, U2; 16, 2)),
        ("16x3", $m!(U16, U3; 16, 3)),
        ("16x4", $m!(U16, U4; 16, 4)),
        ("16x5", $m!(U16, U5; 16, 5)),
        ("16x7", $m!(U16, U7; 16, 7)),
        ("16x8", $m!(U16, U8; 16, 8)),
        ("16x16", $m!(U16, U16; 16, 16)),
        ("16x17", $m!(U16, U17; 16, 17)),
        ("16x31", $m!(U16, U31; 16, 31)),
        ("16x32", $m!(U16, U32; 16, 32)),
        ("17x0", $m!(U17, U0; 17, 0)),
        ("17x1", $m!(U17, U1; 17, 1)),
        ("17x2", $m!(U17, U2; 17, 2)),
        ("17x3", $m!(U17, U3; 17, 3)),
        ("17x4", $m!(U17, U4; 17, 4)),
        ("17x5", $m!(U17, U5; 17, 5)),
        ("17x7", $m!(U17, U7; 17, 7)),
        ("17x8", $m!(U17, U8; 17, 8)),
        ("17x16", $m!(U17, U16; 17, 16)),
        ("17x17", $m!(U17, U17; 17, 17)),
        ("17x31", $m!(U17, U31; 17, 31)),
        ("17x32", $m!(U17, U32; 17, 32)),
        ("31x0", $m!(U31, U0; 31, 0)),
        ("31x1", $m!(U31, U1; 31, 1)),
        ("31x2", $m!(U31, U2; 31, 2)),
        ("31x3", $m!(U31, U3; 31, 3)),
        ("31x4", $m!(U31, U4; 31, 4)),
        ("31x5", $m!(U31, U5; 31, 5)),
        ("31x7", $m!(U31, U7; 31, 7)),
        ("31x8", $m!(U31, U8; 31, 8)),
        ("31x16", $m!(U31, U16; 31, 16)),
        ("31x17", $m!(U31, U17; 31, 17)),
        ("31x31", $m!(U31, U31; 31, 31)),
        ("31x32", $m!(U31, U32; 31, 32)),
        ("32x0", $m!(U32, U0; 32, 0)),
        ("32x1", $m!(U32, U1; 32, 1)),
        ("32x2", $m!(U32, U2; 32, 2)),
        ("32x3", $m!(U32, U3; 32, 3)),
        ("32x4", $m!(U32, U4; 32, 4)),
        ("32x5", $m!(U32, U5; 32, 5)),
        ("32x7", $m!(U32, U7; 32, 7)),
        ("32x8", $m!(U32, U8; 32, 8)),
        ("32x16", $m!(U32, U16; 32, 16)),
        ("32x17", $m!(U32, U17; 32, 17)),
        ("32x31", $m!(U32, U31; 32, 31)),
        ("32x32", $m!(U32, U32; 32, 32)),
    ] };
}

/// length and index below it
#[macro_export]
macro_rules! cb_index {
    ($m:ident) => { &[
        ("1x0", $m!(U1, U0; 1, 0)),
        ("2x0", $m!(U2, U0; 2, 0)),
        ("2x1", $m!(U2, U1; 2, 1)),
        ("3x0", $m!(U3, U0; 3, 0)),
        ("3x1", $m!(U3, U1; 3, 1)),
        ("3x2", $m!(U3, U2; 3, 2)),
        ("4x0", $m!(U4, U0; 4, 0)),
        ("4x1", $m!(U4, U1; 4, 1)),
        ("4x2", $m!(U4, U2; 4, 2)),
        ("4x3", $m!(U4, U3; 4, 3)),
        ("5x0", $m!(U5, U0; 5, 0)),
        ("5x1", $m!(U5, U1; 5, 1)),
        ("5x2", $m!(U5, U2; 5, 2)),
        ("5x3", $m!(U5, U3; 5, 3)),
        ("5x4", $m!(U5, U4; 5, 4)),
        ("6x0", $m!(U6, U0; 6, 0)),
        ("6x1", $m!(U6, U1; 6, 1)),
        ("6x2", $m!(U6, U2; 6, 2)),
        ("6x3", $m!(U6, U3; 6, 3)),
        ("6x4", $m!(U6, U4; 6, 4)),
        ("6x5", $m!(U6, U5; 6, 5)),
        ("7x0", $m!(U7, U0; 7, 0)),
        ("7x1", $m!(U7, U1; 7, 1)),
        ("7x2", $m!(U7, U2; 7, 2)),
        ("7x3", $m!(U7, U3; 7, 3)),
        ("7x4", $m!(U7, U4; 7, 4)),
        ("7x5", $m!(U7, U5; 7, 5)),
        ("7x6", $m!(U7, U6; 7, 6)),
        ("8x0", $m!(U8, U0; 8, 0)),
        ("8x1", $m!(U8, U1; 8, 1)),
        ("8x2", $m!(U8, U2; 8, 2)),
        ("8x3", $m!(U8, U3; 8, 3)),
        ("8x4", $m!(U8, U4; 8, 4)),
        ("8x5", $m!(U8, U5; 8, 5)),
        ("8x6", $m!(U8, U6; 8, 6)),
        ("8x7", $m!(U8, U7; 8, 7)),
        ("9x0", $m!(U9, U0; 9, 0)),
        ("9x1", $m!(U9, U1; 9, 1)),
        ("9x2", $m!(U9, U2; 9, 2)),
        ("9x3", $m!(U9, U3; 9, 3)),
        ("9x4", $m!(U9, U4; 9, 4)),
        ("9x5", $m!(U9, U5; 9, 5)),
        ("9x6", $m!(U9, U6; 9, 6)),
        ("9x7", $m!(U9, U7; 9, 7)),
        ("9x8", $m!(U9, U8; 9, 8)),
        ("10x0", $m!(U10, U0; 10, 0)),
        ("10x1", $m!(U10, U1; 10, 1)),
        ("10x2", $m!(U10, U2; 10, 2)),
        ("10x3", $m!(U10, U3; 10, 3)),
        ("10x4", $m!(U10, U4; 10, 4)),
        ("10x5", $m!(U10, U5; 10, 5)),
        ("10x6", $m!(U10, U6; 10, 6)),
        ("10x7", $m!(U10, U7; 10, 7)),
        ("10x8", $m!(U10, U8; 10, 8)),
        ("10x9", $m!(U10, U9; 10, 9)),
        ("11x0", $m!(U11, U0; 11, 0)),
        ("11x1", $m!(U11, U1; 11, 1)),
        ("11x2", $m!(U11, U2; 11, 2)),
        ("11x3", $m!(U11, U3; 11, 3)),
        ("11x4", $m!(U11, U4; 11, 4)),
        ("11x5", $m!(U11, U5; 11, 5)),
        ("11x6", $m!(U11, U6; 11, 6)),
        ("11x7", $m!(U11, U7; 11, 7)),
        ("11x8", $m!(U11, U8; 11, 8)),
        ("11x9", $m!(U11, U9; 11, 9)),
        ("11x10", $m!(U11, U10; 11, 10)),
        ("12x0", $m!(U12, U0; 12, 0)),
        ("12x1", $m!(U12, U1; 12, 1)),
        ("12x2", $m!(U12, U2; 12, 2)),
        ("12x3", $m!(U12, U3; 12, 3)),
        ("12x4", $m!(U12, U4; 12, 4)),
        ("12x5", $m!(U12, U5; 12, 5)),
        ("12x6", $m!(U12, U6; 12, 6)),
        ("12x7", $m!(U12, U7; 12, 7)),
        ("12x8", $m!(U12, U8; 12, 8)),
        ("12x9", $m!(U12, U9; 12, 9)),
        ("12x10", $m!(U12, U10; 12, 10)),
        ("12x11", $m!(U12, U11; 12, 11)),
        ("13x0", $m!(U13, U0; 13, 0)),
        ("13x1", $m!(U13, U1; 13, 1)),
        ("13x2", $m!(U13, U2; 13, 2)),
        ("13x3", $m!(U13, U3; 13, 3)),
        ("13x4", $m!(U13, U4; 13, 4)),
        ("13x5", $m!(U13, U5; 13, 5)),
        ("13x6", $m!(U13, U6; 13, 6)),
        ("13x7", $m!(U13, U7; 13, 7)),
        ("13x8", $m!(U13, U8; 13, 8)),
        ("13x9", $m!(U13, U9; 13, 9)),
        ("13x10", $m!(U13, U10; 13, 10)),
        ("13x11", $m!(U13, U11; 13, 11)),
        ("13x12", $m!(U13, U12; 13, 12)),
        ("14x0", $m!(U14, U0; 14, 0)),
        ("14x1", $m!(U14, U1; 14, 1)),
        ("14x2", $m!(U14, U2; 14, 2)),
        ("14x3", $m!(U14, U3; 14, 3)),
        ("14x4", $m!(U14, U4; 14, 4)),
        ("14x5", $m!(U14, U5; 14, 5)),
        ("14x6", $m!(U14, U6; 14, 6)),
        ("14x7", $m!(U14, U7; 14, 7)),
        ("14x8", $m!(U14, U8; 14, 8)),
        ("14x9", $m!(U14, U9; 14, 9)),
        ("14x10", $m!(U14, U10; 14, 10)),
        ("14x11", $m!(U14, U11; 14, 11)),
        ("14x12", $m!(U14, U12; 14, 12)),
        ("14x13", $m!(U14, U13; 14, 13)),
        ("15x0", $m!(U15, U0; 15, 0)),
        ("15x1", $m!(U15, U1; 15, 1)),
        ("15x2", $m!(U15, U2; 15, 2)),
        ("15x3", $m!(U15, U3; 15, 3)),
        ("15x4", $m!(U15, U4; 15, 4)),
        ("15x5", $m!(U15, U5; 15, 5)),
        ("15x6", $m!(U15, U6; 15, 6)),
        ("15x7", $m!(U15, U7; 15, 7)),
        ("15x8", $m!(U15, U8; 15, 8)),
        ("15x9", $m!(U15, U9; 15, 9)),
        ("15x10", $m!(U15, U10; 15, 10)),
        ("15x11", $m!(U15, U11; 15, 11)),
        ("15x12", $m!(U15, U12; 15, 12)),
        ("15x13", $m!(U15, U13; 15, 13)),
        ("15x14", $m!(U15, U14; 15, 14)),
        ("16x0", $m!(U16, U0; 16, 0)),
        ("16x1", $m!(U16, U1; 16, 1)),
        ("16x2", $m!(U16, U2; 16, 2)),
        ("16x3", $m!(U16, U3; 16, 3)),
        ("16x4", $m!(U16, U4; 16, 4)),
        ("16x5", $m!(U16, U5; 16, 5)),
        ("16x6", $m!(U16, U6; 16, 6)),
        ("16x7", $m!(U16, U7; 16, 7)),
        ("16x8", $m!(U16, U8; 16, 8)),
        ("16x9", $m!(U16, U9; 16, 9)),
        ("16x10", $m!(U16, U10; 16, 10)),
        ("16x11", $m!(U16, U11; 16, 11)),
        ("16x12", $m!(U16, U12; 16, 12)),
        ("16x13", $m!(U16, U13; 16, 13)),
        ("16x14", $m!(U16, U14; 16, 14)),
        ("16x15", $m!(U16, U15; 16, 15)),
        ("17x0", $m!(U17, U0; 17, 0)),
        ("17x1", $m!(U17, U1; 17, 1)),
        ("17x2", $m!(U17, U2; 17, 2)),
        ("17x3", $m!(U17, U3; 17, 3)),
        ("17x4", $m!(U17, U4; 17, 4)),
        ("17x5", $m!(U17, U5; 17, 5)),
        ("17x6", $m!(U17, U6; 17, 6)),
        ("17x7", $m!(U17, U7; 17, 7)),
        ("17x8", $m!(U17, U8; 17, 8)),
        ("17x9", $m!(U17, U9; 17, 9)),
        ("17x10", $m!(U17, U10; 17, 10)),
        ("17x11", $m!(U17, U11; 17, 11)),
        ("17x12", $m!(U17, U12; 17, 12)),
        ("17x13", $m!(U17, U13; 17, 13)),
        ("17x14", $m!(U17, U14; 17, 14)),
        ("17x15", $m!(U17, U15; 17, 15)),
        ("17x16", $m!(U17, U16; 17, 16)),
        ("18x0", $m!(U18, U0; 18, 0)),
        ("18x1", $m!(U18, U1; 18, 1)),
        ("18x2", $m!(U18, U2; 18, 2)),
        ("18x3", $m!(U18, U3; 18, 3)),
        ("18x4", $m!(U18, U4; 18, 4)),
        ("18x5", $m!(U18, U5; 18, 5)),
        ("18x6", $m!(U18, U6; 18, 6)),
        ("18x7", $m!(U18, U7; 18, 7)),
        ("18x8", $m!(U18, U8; 18, 8)),
        ("18x9", $m!(U18, U9; 18, 9)),
        ("18x10", $m!(U18, U10; 18, 10)),
        ("18x11", $m!(U18, U11; 18, 11)),
        ("18x12", $m!(U18, U12; 18, 12)),
        ("18x13", $m!(U18, U13; 18, 13)),
        ("18x14", $m!(U18, U14; 18, 14)),
        ("18x15", $m!(U18, U15; 18, 15)),
        ("18x16", $m!(U18, U16; 18, 16)),
        ("18x17", $m!(U18, U17; 18, 17)),
        ("19x0", $m!(U19, U0; 19, 0)),
        ("19x1", $m!(U19, U1; 19, 1)),
        ("19x2", $m!(U19, U2; 19, 2)),
        ("19x3", $m!(U19, U3; 19, 3)),
        ("19x4", $m!(U19, U4; 19, 4)),
        ("19x5", $m!(U19, U5; 19, 5)),
        ("19x6", $m!(U19, U6; 19, 6)),
        ("19x7", $m!(U19, U7; 19, 7)),
        ("19x8", $m!(U19, U8; 19, 8)),
        ("19x9", $m!(U19, U9; 19, 9)),
        ("19x10", $m!(U19, U10; 19, 10)),
        ("19x11", $m!(U19, U11; 19, 11)),
        ("19x12", $m!(U19, U12; 19, 12)),
        ("19x13", $m!(U19, U13; 19, 13)),
        ("19x14", $m!(U19, U14; 19, 14)),
        ("19x15", $m!(U19, U15; 19, 15)),
        ("19x16", $m!(U19, U16; 19, 16)),
        ("19x17", $m!(U19, U17; 19, 17)),
        ("19x18", $m!(U19, U18; 19, 18)),
        ("20x0", $m!(U20, U0; 20, 0)),
        ("20x1", $m!(U20, U1; 20, 1)),
        ("20x2", $m!(U20, U2; 20, 2)),
        ("20x3", $m!(U20, U3; 20, 3)),
        ("20x4", $m!(U20, U4; 20, 4)),
        ("20x5", $m!(U20, U5; 20, 5)),
        ("20x6", $m!(U20, U6; 20, 6)),
        ("20x7", $m!(U20, U7; 20, 7)),
        ("20x8", $m!(U20, U8; 20, 8)),
        ("20x9", $m!(U20, U9; 20, 9)),
        ("20x10", $m!(U20, U10; 20, 10)),
        ("20x11", $m!(U20, U11; 20, 11)),
        ("20x12", $m!(U20, U12; 20, 12)),
        ("20x13", $m!(U20, U13; 20, 13)),
        ("20x14", $m!(U20, U14; 20, 14)),
        ("20x15", $m!(U20, U15; 20, 15)),
        ("20x16", $m!(U20, U16; 20, 16)),
        ("20x17", $m!(U20, U17; 20, 17)),
        ("20x18", $m!(U20, U18; 20, 18)),
        ("20x19", $m!(U20, U19; 20, 19)),
        ("21x0", $m!(U21, U0; 21, 0)),
        ("21x1", $m!(U21, U1; 21, 1)),
        ("21x2", $m!(U21, U2; 21, 2)),
        ("21x3", $m!(U21, U3; 21, 3)),
        ("21x4", $m!(U21, U4; 21, 4)),
        ("21x5", $m!(U21, U5; 21, 5)),
        ("21x6", $m!(U21, U6; 21, 6)),
        ("21x7", $m!(U21, U7; 21, 7)),
        ("21x8", $m!(U21, U8; 21, 8)),
        ("21x9", $m!(U21, U9; 21, 9)),
        ("21x10", $m!(U21, U10; 21, 10)),
        ("21x11", $m!(U21, U11; 21, 11)),
        ("21x12", $m!(U21, U12; 21, 12)),
        ("21x13", $m!(U21, U13; 21, 13)),
        ("21x14", $m!(U21, U14; 21, 14)),
        ("21x15", $m!(U21, U15; 21, 15)),
        ("21x16", $m!(U21, U16; 21, 16)),
        ("21x17", $m!(U21, U17; 21, 17)),
        ("21x18", $m!(U21, U18; 21, 18)),
        ("21x19", $m!(U21, U19; 21, 19)),
        ("21x20", $m!(U21, U20; 21, 20)),
        ("22x0", $m!(U22, U0; 22, 0)),
        ("22x1", $m!(U22, U1; 22, 1)),
        ("22x2", $m!(U22, U2; 22, 2)),
        ("22x3", $m!(U22, U3; 22, 3)),
        ("22x4", $m!(U22, U4; 22, 4)),
        ("22x5", $m!(U22, U5; 22, 5)),
        ("22x6", $m!(U22, U6; 22, 6)),
        ("22x7", $m!(U22, U7; 22, 7)),
        ("22x8", $m!(U22, U8; 22, 8)),
        ("22x9", $m!(U22, U9; 22, 9)),
        ("22x10", $m!(U22, U10; 22, 10)),
        ("22x11", $m!(U22, U11; 22, 11)),
        ("22x12", $m!(U22, U12; 22, 12)),
        ("22x13", $m!(U22, U13; 22, 13)),
        ("22x14", $m!(U22, U14; 22, 14)),
        ("22x15", $m!(U22, U15; 22, 15)),
        ("22x16", $m!(U22, U16; 22, 16)),
        ("22x17", $m!(U22, U17; 22, 17)),
        ("22x18", $m!(U22, U18; 22, 18)),
        ("22x19", $m!(U22, U19; 22, 19)),
        ("22x20", $m!(U22, U20; 22, 20)),
        ("22x21", $m!(U22, U21; 22, 21)),
        ("23x0", $m!(U23, U0; 23, 0)),
        ("23x1", $m!(U23, U1; 23, 1)),
        ("23x2", $m!(U23, U2; 23, 2)),
        ("23x3", $m!(U23, U3; 23, 3)),
        ("23x4", $m!(U23, U4; 23, 4)),
        ("23x5", $m!(U23, U5; 23, 5)),
        ("23x6", $m!(U23, U6; 23, 6)),
        ("23x7", $m!(U23, U7; 23, 7)),
        ("23x8", $m!(U23, U8; 23, 8)),
        ("23x9", $m!(U23, U9; 23, 9)),
        ("23x10", $m!(U23, U10; 23, 10)),
        ("23x11", $m!(U23, U11; 23, 11)),
        ("23x12", $m!(U23, U12; 23, 12)),
        ("23x13", $m!(U23, U13; 23, 13)),
        ("23x14", $m!(U23, U14; 23, 14)),
        ("23x15", $m!(U23, U15; 23, 15)),
        ("23x16", $m!(U23, U16; 23, 16)),
        ("23x17", $m!(U23, U17; 23, 17)),
        ("23x18", $m!(U23, U18; 23, 18)),
        ("23x19", $m!(U23, U19; 23, 19)),
        ("23x20", $m!(U23, U20; 23, 20)),
        ("23x21", $m!(U23, U21; 23, 21)),
        ("23x22", $m!(U23, U22; 23, 22)),
        ("24x0", $m!(U24, U0; 24, 0)),
        ("24x1", $m!(U24, U1; 24, 1)),
        ("24x2", $m!(U24, U2; 24, 2)),
        ("24x3", $m!(U24, U3; 24, 3)),
        ("24x4", $m!(U24, U4; 24, 4)),
        ("24x5", $m!(U24, U5; 24, 5)),
        ("24x6", $m!(U24, U6; 24, 6)),
        ("24x7", $m!(U24, U7; 24, 7)),
        ("24x8", $m!(U24, U8; 24, 8)),
        ("24x9", $m!(U24, U9; 24, 9)),
        ("24x10", $m!(U24, U10; 24, 10)),
        ("24x11", $m!(U24, U11; 24, 11)),
        ("24x12", $m!(U24, U12; 24, 12)),
        ("24x13", $m!(U24, U13; 24, 13)),
        ("24x14", $m!(U24, U14; 24, 14)),
        ("24x15", $m!(U24, U15; 24, 15)),
        ("24x16", $m!(U24, U16; 24, 16)),
        ("24x17", $m!(U24, U17; 24, 17)),
        ("24x18", $m!(U24, U18; 24, 18)),
        ("24x19", $m!(U24, U19; 24, 19)),
        ("24x20", $m!(U24, U20; 24, 20)),
        ("24x21", $m!(U24, U21; 24, 21)),
        ("24x22", $m!(U24, U22; 24, 22)),
        ("24x23", $m!(U24, U23; 24, 23)),
        ("25x0", $m!(U25, U0; 25, 0)),
        ("25x1", $m!(U25, U1; 25, 1)),
        ("25x2", $m!(U25, U2; 25, 2)),
        ("25x3", $m!(U25, U3; 25, 3)),
        ("25x4", $m!(U25, U4; 25, 4)),
        ("25x5", $m!(U25, U5; 25, 5)),
        ("25x6", $m!(U25, U6; 25, 6)),
        ("25x7", $m!(U25, U7; 25, 7)),
        ("25x8", $m!(U25, U8; 25, 8)),
        ("25x9", $m!(U25, U9; 25, 9)),
        ("25x10", $m!(U25, U10; 25, 10)),
        ("25x11", $m!(U25, U11; 25, 11)),
        ("25x12", $m!(U25, U12; 25, 12)),
        ("25x13", $m!(U25, U13; 25, 13)),
        ("25x14", $m!(U25, U14; 25, 14)),
        ("25x15", $m!(U25, U15; 25, 15)),
        ("25x16", $m!(U25, U16; 25, 16)),
        ("25x17", $m!(U25, U17; 25, 17)),
        ("25x18", $m!(U25, U18; 25, 18)),
        ("25x19", $m!(U25, U19; 25, 19)),
        ("25x20", $m!(U25, U20; 25, 20)),
        ("25x21", $m!(U25, U21; 25, 21)),
        ("25x22", $m!(U25, U22; 25, 22)),
        ("25x23", $m!(U25, U23; 25, 23)),
        ("25x24", $m!(U25, U24; 25, 24)),
        ("26x0", $m!(U26, U0; 26, 0)),
        ("26x1", $m!(U26, U1; 26, 1)),
        ("26x2", $m!(U26, U2; 26, 2)),
        ("26x3", $m!(U26, U3; 26, 3)),
        ("26x4", $m!(U26, U4; 26, 4)),
        ("26x5", $m!(U26, U5; 26, 5)),
        ("26x6", $m!(U26, U6; 26, 6)),
        ("26x7", $m!(U26, U7; 26, 7)),
        ("26x8", $m!(U26, U8; 26, 8)),
        ("26x9", $m!(U26, U9; 26, 9)),
        ("26x10", $m!(U26, U10; 26, 10)),
        ("26x11", $m!(U26, U11; 26, 11)),
        ("26x12", $m!(U26, U12; 26, 12)),
        ("26x13", $m!(U26, U13; 26, 13)),
        ("26x14", $m!(U26, U14; 26, 14)),
        ("26x15", $m!(U26, U15; 26, 15)),
        ("26x16", $m!(U26, U16; 26, 16)),
        ("26x17", $m!(U26, U17; 26, 17)),
        ("26x18", $m!(U26, U18; 26, 18)),
        ("26x19", $m!(U26, U19; 26, 19)),
        ("26x20", $m!(U26, U20; 26, 20)),
        ("26x21", $m!(U26, U21; 26, 21)),
        ("26x22", $m!(U26, U22; 26, 22)),
        ("26x23", $m!(U26, U23; 26, 23)),
        ("26x24", $m!(U26, U24; 26, 24)),
        ("26x25", $m!(U26, U25; 26, 25)),
        ("27x0", $m!(U27, U0; 27, 0)),
        ("27x1", $m!(U27, U1; 27, 1)),
        ("27x2", $m!(U27, U2; 27, 2)),
        ("27x3", $m!(U27, U3; 27, 3)),
        ("27x4", $m!(U27, U4; 27, 4)),
        ("27x5", $m!(U27, U5; 27, 5)),
        ("27x6", $m!(U27, U6; 27, 6)),
        ("27x7", $m!(U27, U7; 27, 7)),
        ("27x8", $m!(U27, U8; 27, 8)),
        ("27x9", $m!(U27, U9; 27, 9)),
        ("27x10", $m!(U27, U10; 27, 10)),
        ("27x11", $m!(U27, U11; 27, 11)),
        ("27x12", $m!(U27, U12; 27, 12)),
        ("27x13", $m!(U27, U13; 27, 13)),
        ("27x14", $m!(U27, U14; 27, 14)),
        ("27x15", $m!(U27, U15; 27, 15)),
        ("27x16", $m!(U27, U16; 27, 16)),
        ("27x17", $m!(U27, U17; 27, 17)),
        ("27x18", $m!(U27, U18; 27, 18)),
        ("27x19", $m!(U27, U19; 27, 19)),
        ("27x20", $m!(U27, U20; 27, 20)),
        ("27x21", $m!(U27, U21; 27, 21)),
        ("27x22", $m!(U27, U22; 27, 22)),
        ("27x23", $m!(U27, U23; 27, 23)),
        ("27x24", $m!(U27, U24; 27, 24)),
        ("27x25", $m!(U27, U25; 27, 25)),
        ("27x26", $m!(U27, U26; 27, 26)),
        ("28x0", $m!(U28, U0; 28, 0)),
        ("28x1", $m!(U28, U1; 28, 1)),
        ("28x2", $m!(U28, U2; 28, 2)),
        ("28x3", $m!(U28, U3; 28, 3)),
        ("28x4", $m!(U28, U4; 28, 4)),
        ("28x5", $m!(U28, U5; 28, 5)),
        ("28x6", $m!(U28, U6; 28, 6)),
        ("28x7", $m!(U28, U7; 28, 7)),
        ("28x8", $m!(U28, U8; 28, 8)),
        ("28x9", $m!(U28, U9; 28, 9)),
        ("28x10", $m!(U28, U10; 28, 10)),
        ("28x11", $m!(U28, U11; 28, 11)),
        ("28x12", $m!(U28, U12; 28, 12)),
        ("28x13", $m!(U28, U13; 28, 13)),
        ("28x14", $m!(U28, U14; 28, 14)),
        ("28x15", $m!(U28, U15; 28, 15)),
        ("28x16", $m!(U28, U16; 28, 16)),
        ("28x17", $m!(U28, U17; 28, 17)),
        ("28x18", $m!(U28, U18; 28, 18)),
        ("28x19", $m!(U28, U19; 28, 19)),
        ("28x20", $m!(U28, U20; 28, 20)),
        ("28x21", $m!(U28, U21; 28, 21)),
        ("28x22", $m!(U28, U22; 28, 22)),
        ("28x23", $m!(U28, U23; 28, 23)),
        ("28x24", $m!(U28, U24; 28, 24)),
        ("28x25", $m!(U28, U25; 28, 25)),
        ("28x26", $m!(U28, U26; 28, 26)),
        ("28x27", $m!(U28, U27; 28, 27)),
        ("29x0", $m!(U29, U0; 29, 0)),
        ("29x1", $m!(U29, U1; 29, 1)),
        ("29x2", $m!(U29, U2; 29, 2)),
        ("29x3", $m!(U29, U3; 29, 3)),
        ("29x4", $m!(U29, U4; 29, 4)),
        ("29x5", $m!(U29, U5; 29, 5)),
        ("29x6", $m!(U29, U6; 29, 6)),
        ("29x7", $m!(U29, U7; 29, 7)),
        ("29x8", $m!(U29, U8; 29, 8)),
        ("29x9", $m!(U29, U9; 29, 9)),
        ("29x10", $m!(U29, U10; 29, 10)),
        ("29x11", $m!(U29, U11; 29, 11)),
        ("29x12", $m!(U29, U12; 29, 12)),
        ("29x13", $m!(U29, U13; 29, 13)),
        ("29x14", $m!(U29, U14; 29, 14)),
        ("29x15", $m!(U29, U15; 29, 15)),
        ("29x16", $m!(U29, U16; 29, 16)),
        ("29x17", $m!(U29, U17; 29, 17)),
        ("29x18", $m!(U29, U18; 29, 18)),
        ("29x19", $m!(U29, U19; 29, 19)),
        ("29x20", $m!(U29, U20; 29, 20)),
        ("29x21", $m!(U29, U21; 29, 21)),
        ("29x22", $m!(U29, U22; 29, 22)),
        ("29x23", $m!(U29, U23; 29, 23)),
        ("29x24", $m!(U29, U24; 29, 24)),
        ("29x25", $m!(U29, U25; 29, 25)),
        ("29x26", $m!(U29, U26; 29, 26)),
        ("29x27", $m!(U29, U27; 29, 27)),
        ("29x28", $m!(U29, U28; 29, 28)),
        ("30x0", $m!(U30, U0; 30, 0)),
        ("30x1", $m!(U30, U1; 30, 1)),
        ("30x2", $m!(U30, U2; 30, 2)),
        ("30x3", $m!(U30, U3; 30, 3)),
        ("30x4", $m!(U30, U4; 30, 4)),
        ("30x5", $m!(U30, U5; 30, 5)),
        ("30x6", $m!(U30, U6; 30, 6)),
        ("30x7", $m!(U30, U7; 30, 7)),
        ("30x8", $m!(U30, U8; 30, 8)),
        ("30x9", $m!(U30, U9; 30, 9)),
        ("30x10", $m!(U30, U10; 30, 10)),
        ("30x11", $m!(U30, U11; 30, 11)),
        ("30x12", $m!(U30, U12; 30, 12)),
        ("30x13", $m!(U30, U13; 30, 13)),
        ("30x14", $m!(U30, U14; 30, 14)),
        ("30x15", $m!(U30, U15; 30, 15)),
        ("30x16", $m!(U30, U16; 30, 16)),
        ("30x17", $m!(U30, U17; 30, 17)),
        ("30x18", $m!(U30, U18; 30, 18)),
        ("30x19", $m!(U30, U19; 30, 19)),
        ("30x20", $m!(U30, U20; 30, 20)),
        ("30x21", $m!(U30, U21; 30, 21)),
        ("30x22", $m!(U30, U22; 30, 22)),
        ("30x23", $m!(U30, U23; 30, 23)),
        ("30x24", $m!(U30, U24; 30, 24)),
        ("30x25", $m!(U30, U25; 30, 25)),
        ("30x26", $m!(U30, U26; 30, 26)),
        ("30x27", $m!(U30, U27; 30, 27)),
        ("30x28", $m!(U30, U28; 30, 28)),
        ("30x29", $m!(U30, U29; 30, 29)),
        ("31x0", $m!(U31, U0; 31, 0)),
        ("31x1", $m!(U31, U1; 31, 1)),
        ("31x2", $m!(U31, U2; 31, 2)),
        ("31x3", $m!(U31, U3; 31, 3)),
        ("31x4", $m!(U31, U4; 31, 4)),
        ("31x5", $m!(U31, U5; 31, 5)),
        ("31x6", $m!(U31, U6; 31, 6)),
        ("31x7", $m!(U31, U7; 31, 7)),
        ("31x8", $m!(U31, U8; 31, 8)),
        ("31x9", $m!(U31, U9; 31, 9)),
        ("31x10", $m!(U31, U10; 31, 10)),
        ("31x11", $m!(U31, U11; 31, 11)),
        ("31x12", $m!(U31, U12; 31, 12)),
        ("31x13", $m!(U31, U13; 31, 13)),
        ("31x14", $m!(U31, U14; 31, 14)),
        ("31x15", $m!(U31, U15; 31, 15)),
        ("31x16", $m!(U31, U16; 31, 16)),
        ("31x17", $m!(U31, U17; 31, 17)),
        ("31x18", $m!(U31, U18; 31, 18)),
        ("31x19", $m!(U31, U19; 31, 19)),
        ("31x20", $m!(U31, U20; 31, 20)),
        ("31x21", $m!(U31, U21; 31, 21)),
        ("31x22", $m!(U31, U22; 31, 22)),
        ("31x23", $m!(U31, U23; 31, 23)),
        ("31x24", $m!(U31, U24; 31, 24)),
        ("31x25", $m!(U31, U25; 31, 25)),
        ("31x26", $m!(U31, U26; 31, 26)),
        ("31x27", $m!(U31, U27; 31, 27)),
        ("31x28", $m!(U31, U28; 31, 28)),
        ("31x29", $m!(U31, U29; 31, 29)),
        ("31x30", $m!(U31, U30; 31, 30)),
        ("32x0", $m!(U32, U0; 32, 0)),
        ("32x1", $m!(U32, U1; 32, 1)),
        ("32x2", $m!(U32, U2; 32, 2)),
        ("32x3", $m!(U32, U3; 32, 3)),
        ("32x4", $m!(U32, U4; 32, 4)),
        ("32x5", $m!(U32, U5; 32, 5)),
        ("32x6", $m!(U32, U6; 32, 6)),
        ("32x7", $m!(U32, U7; 32, 7)),
        ("32x8", $m!(U32, U8; 32, 8)),
        ("32x9", $m!(U32, U9; 32, 9)),
        ("32x10", $m!(U32, U10; 32, 10)),
        ("32x11", $m!(U32, U11; 32, 11)),
        ("32x12", $m!(U32, U12; 32, 12)),
        ("32x13", $m!(U32, U13; 32, 13)),
        ("32x14", $m!(U32, U14; 32, 14)),
        ("32x15", $m!(U32, U15; 32, 15)),
        ("32x16", $m!(U32, U16; 32, 16)),
        ("32x17", $m!(U32, U17; 32, 17)),
        ("32x18", $m!(U32, U18; 32, 18)),
        ("32x19", $m!(U32, U19; 32, 19)),
        ("32x20", $m!(U32, U20; 32, 20)),
        ("32x21", $m!(U32, U21; 32, 21)),
        ("32x22", $m!(U32, U22; 32, 22)),
        ("32x23", $m!(U32, U23; 32, 23)),
        ("32x24", $m!(U32, U24; 32, 24)),
        ("32x25", $m!(U32, U25; 32, 25)),
        ("32x26", $m!(U32, U26; 32, 26)),
        ("32x27", $m!(U32, U27; 32, 27)),
        ("32x28", $m!(U32, U28; 32, 28)),
        ("32x29", $m!(U32, U29; 32, 29)),
        ("32x30", $m!(U32, U30; 32, 30)),
        ("32x31", $m!(U32, U31; 32, 31)),
    ] };
}

/// shape and position inside it
#[macro_export]
macro_rules! cb_index2 {
    ($m:ident) => { &[
        ("1x1x0x0", $m!(U1, U1, U0, U0; 1, 1, 0, 0)),
        ("1x2x0x0", $m!(U1, U2, U0, U0; 1, 2, 0, 0)),
        ("1x2x0x1", $m!(U1, U2, U0, U1; 1, 2, 0, 1)),
        ("1x3x0x0", $m!(U1, U3, U0, U0; 1, 3, 0, 0)),
        ("1x3x0x2", $m!(U1, U3, U0, U2; 1, 3, 0, 2)),
        ("1x4x0x0", $m!(U1, U4, U0, U0; 1, 4, 0, 0)),
        ("1x4x0x3", $m!(U1, U4, U0, U3; 1, 4, 0, 3)),
        ("1x5x0x0", $m!(U1, U5, U0, U0; 1, 5, 0, 0)),
        ("1x5x0x4", $m!(U1, U5, U0, U4; 1, 5, 0, 4)),
        ("1x6x0x0", $m!(U1, U6, U0, U0; 1, 6, 0, 0)),
        ("1x6x0x5", $m!(U1, U6, U0, U5; 1, 6, 0, 5)),
        ("1x7x0x0", $m!(U1, U7, U0, U0; 1, 7, 0, 0)),
        ("1x7x0x6", $m!(U1, U7, U0, U6; 1, 7, 0, 6)),
        ("1x8x0x0", $m!(U1, U8, U0, U0; 1, 8, 0, 0)),
        ("1x8x0x7", $m!(U1, U8, U0, U7; 1, 8, 0, 7)),
        ("1x9x0x0", $m!(U1, U9, U0, U0; 1, 9, 0, 0)),
        ("1x9x0x8", $m!(U1, U9, U0, U8; 1, 9, 0, 8)),
        ("1x10x0x0", $m!(U1, U10, U0, U0; 1, 10, 0, 0)),
        ("1x10x0x9", $m!(U1, U10, U0, U9; 1, 10, 0, 9)),
        ("1x11x0x0", $m!(U1, U11, U0, U0; 1, 11, 0, 0)),
        ("1x11x0x10", $m!(U1, U11, U0, U10; 1, 11, 0, 10)),
        ("1x12x0x0", $m!(U1, U12, U0, U0; 1, 12, 0, 0)),
        ("1x12x0x11", $m!(U1, U12, U0, U11; 1, 12, 0, 11)),
        ("1x13x0x0", $m!(U1, U13, U0, U0; 1, 13, 0, 0)),
        ("1x13x0x12", $m!(U1, U13, U0, U12; 1, 13, 0, 12)),
        ("1x14x0x0", $m!(U1, U14, U0, U0; 1, 14, 0, 0)),
        ("1x14x0x13", $m!(U1, U14, U0, U13; 1, 14, 0, 13)),
        ("1x15x0x0", $m!(U1, U15, U0, U0; 1, 15, 0, 0)),
        ("1x15x0x14", $m!(U1, U15, U0, U14; 1, 15, 0, 14)),
        ("1x16x0x0", $m!(U1, U16, U0, U0; 1, 16, 0, 0)),
        ("1x16x0x15", $m!(U1, U16, U0, U15; 1, 16, 0, 15)),
        ("1x17x0x0", $m!(U1, U17, U0, U0; 1, 17, 0, 0)),
        ("1x17x0x16", $m!(U1, U17, U0, U16; 1, 17, 0, 16)),
        ("1x18x0x0", $m!(U1, U18, U0, U0; 1, 18, 0, 0)),
        ("1x18x0x17", $m!(U1, U18, U0, U17; 1, 18, 0, 17)),
        ("1x19x0x0", $m!(U1, U19, U0, U0; 1, 19, 0, 0)),
        ("1x19x0x2", $m!(U1, U19, U0, U2; 1, 19, 0, 2)),
        ("1x19x0x18", $m!(U1, U19, U0, U18; 1, 19, 0, 18)),
        ("1x20x0x0", $m!(U1, U20, U0, U0; 1, 20, 0, 0)),
        ("1x20x0x19", $m!(U1, U20, U0, U19; 1, 20, 0, 19)),
        ("1x21x0x0", $m!(U1, U21, U0, U0; 1, 21, 0, 0)),
        ("1x21x0x20", $m!(U1, U21, U0, U20; 1, 21, 0, 20)),
        ("1x22x0x0", $m!(U1, U22, U0, U0; 1, 22, 0, 0)),
        ("1x22x0x21", $m!(U1, U22, U0, U21; 1, 22, 0, 21)),
        ("1x23x0x0", $m!(U1, U23, U0, U0; 1, 23, 0, 0)),
        ("1x23x0x22", $m!(U1, U23, U0, U22; 1, 23, 0, 22)),
        ("1x24x0x0", $m!(U1, U24, U0, U0; 1, 24, 0, 0)),
        ("1x24x0x23", $m!(U1, U24, U0, U23; 1, 24, 0, 23)),
        ("1x25x0x0", $m!(U1, U25, U0, U0; 1, 25, 0, 0)),
        ("1x25x0x24", $m!(U1, U25, U0, U24; 1, 25, 0, 24)),
        ("1x26x0x0", $m!(U1, U26, U0, U0; 1, 26, 0, 0)),
        ("1x26x0x25", $m!(U1, U26, U0, U25; 1, 26, 0, 25)),
        ("1x27x0x0", $m!(U1, U27, U0, U0; 1, 27, 0, 0)),
        ("1x27x0x26", $m!(U1, U27, U0, U26; 1, 27, 0, 26)),
        ("1x28x0x0", $m!(U1, U28, U0, U0; 1, 28, 0, 0)),
        ("1x28x0x27", $m!(U1, U28, U0, U27; 1, 28, 0, 27)),
        ("1x29x0x0", $m!(U1, U29, U0, U0; 1, 29, 0, 0)),
        ("1x29x0x28", $m!(U1, U29, U0, U28; 1, 29, 0, 28)),
        ("1x30x0x0", $m!(U1, U30, U0, U0; 1, 30, 0, 0)),
        ("1x30x0x29", $m!(U1, U30, U0, U29; 1, 30, 0, 29)),
        ("1x31x0x0", $m!(U1, U31, U0, U0; 1, 31, 0, 0)),
        ("1x31x0x30", $m!(U1, U31, U0, U30; 1, 31, 0, 30)),
        ("1x32x0x0", $m!(U1, U32, U0, U0; 1, 32, 0, 0)),
        ("1x32x0x31", $m!(U1, U32, U0, U31; 1, 32, 0, 31)),
        ("2x1x0x0", $m!(U2, U1, U0, U0; 2, 1, 0, 0)),
        ("2x1x1x0", $m!(U2, U1, U1, U0; 2, 1, 1, 0)),
        ("2x2x0x0", $m!(U2, U2, U0, U0; 2, 2, 0, 0)),
        ("2x2x0x1", $m!(U2, U2, U0, U1; 2, 2, 0, 1)),
        ("2x2x1x0", $m!(U2, U2, U1, U0; 2, 2, 1, 0)),
        ("2x2x1x1", $m!(U2, U2, U1, U1; 2, 2, 1, 1)),
        ("2x3x0x0", $m!(U2, U3, U0, U0; 2, 3, 0, 0)),
        ("2x3x0x2", $m!(U2, U3, U0, U2; 2, 3, 0, 2)),
        ("2x3x1x0", $m!(U2, U3, U1, U0; 2, 3, 1, 0)),
        ("2x3x1x2", $m!(U2, U3, U1, U2; 2, 3, 1, 2)),
        ("2x4x0x3", $m!(U2, U4, U0, U3; 2, 4, 0, 3)),
        ("2x4x1x0", $m!(U2, U4, U1, U0; 2, 4, 1, 0)),
        ("2x5x0x4", $m!(U2, U5, U0, U4; 2, 5, 0, 4)),
        ("2x5x1x0", $m!(U2, U5, U1, U0; 2, 5, 1, 0)),
        ("2x6x0x5", $m!(U2, U6, U0, U5; 2, 6, 0, 5)),
        ("2x6x1x0", $m!(U2, U6, U1, U0; 2, 6, 1, 0)),
        ("2x7x0x6", $m!(U2, U7, U0, U6; 2, 7, 0, 6)),
        ("2x7x1x0", $m!(U2, U7, U1, U0; 2, 7, 1, 0)),
        ("2x8x0x0", $m!(U2, U8, U0, U0; 2, 8, 0, 0)),
        ("2x8x0x7", $m!(U2, U8, U0, U7; 2, 8, 0, 7)),
        ("2x8x1x0", $m!(U2, U8, U1, U0; 2, 8, 1, 0)),
        ("2x8x1x7", $m!(U2, U8, U1, U7; 2, 8, 1, 7)),
        ("2x9x0x8", $m!(U2, U9, U0, U8; 2, 9, 0, 8)),
        ("2x9x1x0", $m!(U2, U9, U1, U0; 2, 9, 1, 0)),
        ("2x10x0x9", $m!(U2, U10, U0, U9; 2, 10, 0, 9)),
        ("2x10x1x0", $m!(U2, U10, U1, U0; 2, 10, 1, 0)),
        ("2x11x0x0", $m!(U2, U11, U0, U0; 2, 11, 0, 0)),
        ("2x11x0x10", $m!(U2, U11, U0, U10; 2, 11, 0, 10)),
        ("2x11x1x0", $m!(U2, U11, U1, U0; 2, 11, 1, 0)),
        ("2x11x1x10", $m!(U2, U11, U1, U10; 2, 11, 1, 10)),
        ("2x12x0x11", $m!(U2, U12, U0, U11; 2, 12, 0, 11)),
        ("2x12x1x0", $m!(U2, U12, U1, U0; 2, 12, 1, 0)),
        ("2x13x0x12", $m!(U2, U13, U0, U12; 2, 13, 0, 12)),
        ("2x13x1x0", $m!(U2, U13, U1, U0; 2, 13, 1, 0)),
        ("2x14x0x13", $m!(U2, U14, U0, U13; 2, 14, 0, 13)),
        ("2x14x1x0", $m!(U2, U14, U1, U0; 2, 14, 1, 0)),
        ("2x15x0x14", $m!(U2, U15, U0, U14; 2, 15, 0, 14)),
        ("2x15x1x0", $m!(U2, U15, U1, U0; 2, 15, 1, 0)),
        ("2x16x0x15", $m!(U2, U16, U0, U15; 2, 16, 0, 15)),
        ("2x16x1x0", $m!(U2, U16, U1, U0; 2, 16, 1, 0)),
        ("2x17x0x16", $m!(U2, U17, U0, U16; 2, 17, 0, 16)),
        ("2x17x1x0", $m!(U2, U17, U1, U0; 2, 17, 1, 0)),
        ("2x17x1x5", $m!(U2, U17, U1, U5; 2, 17, 1, 5)),
        ("2x18x0x17", $m!(U2, U18, U0, U17; 2, 18, 0, 17)),
        ("2x18x1x0", $m!(U2, U18, U1, U0; 2, 18, 1, 0)),
        ("2x19x0x18", $m!(U2, U19, U0, U18; 2, 19, 0, 18)),
        ("2x19x1x0", $m!(U2, U19, U1, U0; 2, 19, 1, 0)),
        ("2x20x0x19", $m!(U2, U20, U0, U19; 2, 20, 0, 19)),
        ("2x20x1x0", $m!(U2, U20, U1, U0; 2, 20, 1, 0)),
        ("2x21x0x20", $m!(U2, U21, U0, U20; 2, 21, 0, 20)),
        ("2x21x1x0", $m!(U2, U21, U1, U0; 2, 21, 1, 0)),
        ("2x22x0x21", $m!(U2, U22, U0, U21; 2, 22, 0, 21)),
        ("2x22x1x0", $m!(U2, U22, U1, U0; 2, 22, 1, 0)),
        ("2x23x0x22", $m!(U2, U23, U0, U22; 2, 23, 0, 22)),
        ("2x23x1x0", $m!(U2, U23, U1, U0; 2, 23, 1, 0)),
        ("2x24x0x23", $m!(U2, U24, U0, U23; 2, 24, 0, 23)),
        ("2x24x1x0", $m!(U2, U24, U1, U0; 2, 24, 1, 0)),
        ("2x25x0x24", $m!(U2, U25, U0, U24; 2, 25, 0, 24)),
        ("2x25x1x0", $m!(U2, U25, U1, U0; 2, 25, 1, 0)),
        ("2x26x0x25", $m!(U2, U26, U0, U25; 2, 26, 0, 25)),
        ("2x26x1x0", $m!(U2, U26, U1, U0; 2, 26, 1, 0)),
        ("2x27x0x26", $m!(U2, U27, U0, U26; 2, 27, 0, 26)),
        ("2x27x1x0", $m!(U2, U27, U1, U0; 2, 27, 1, 0)),
        ("2x28x0x27", $m!(U2, U28, U0, U27; 2, 28, 0, 27)),
        ("2x28x1x0", $m!(U2, U28, U1, U0; 2, 28, 1, 0)),
        ("2x29x0x28", $m!(U2, U29, U0, U28; 2, 29, 0, 28)),
        ("2x29x1x0", $m!(U2, U29, U1, U0; 2, 29, 1, 0)),
        ("2x30x0x29", $m!(U2, U30, U0, U29; 2, 30, 0, 29)),
        ("2x30x1x0", $m!(U2, U30, U1, U0; 2, 30, 1, 0)),
        ("2x31x0x2", $m!(U2, U31, U0, U2; 2, 31, 0, 2)),
        ("2x31x0x30", $m!(U2, U31, U0, U30; 2, 31, 0, 30)),
        ("2x31x1x0", $m!(U2, U31, U1, U0; 2, 31, 1, 0)),
        ("2x32x0x31", $m!(U2, U32, U0, U31; 2, 32, 0, 31)),
        ("2x32x1x0", $m!(U2, U32, U1, U0; 2, 32, 1, 0)),
        ("3x1x0x0", $m!(U3, U1, U0, U0; 3, 1, 0, 0)),
        ("3x1x2x0", $m!(U3, U1, U2, U0; 3, 1, 2, 0)),
        ("3x2x0x0", $m!(U3, U2, U0, U0; 3, 2, 0, 0)),
        ("3x2x0x1", $m!(U3, U2, U0, U1; 3, 2, 0, 1)),
        ("3x2x2x0", $m!(U3, U2, U2, U0; 3, 2, 2, 0)),
        ("3x2x2x1", $m!(U3, U2, U2, U1; 3, 2, 2, 1)),
        ("3x3x0x0", $m!(U3, U3, U0, U0; 3, 3, 0, 0)),
        ("3x3x0x2", $m!(U3, U3, U0, U2; 3, 3, 0, 2)),
        ("3x3x2x0", $m!(U3, U3, U2, U0; 3, 3, 2, 0)),
        ("3x3x2x2", $m!(U3, U3, U2, U2; 3, 3, 2, 2)),
        ("3x4x0x0", $m!(U3, U4, U0, U0; 3, 4, 0, 0)),
        ("3x4x0x3", $m!(U3, U4, U0, U3; 3, 4, 0, 3)),
        ("3x4x2x0", $m!(U3, U4, U2, U0; 3, 4, 2, 0)),
        ("3x4x2x3", $m!(U3, U4, U2, U3; 3, 4, 2, 3)),
        ("3x5x0x4", $m!(U3, U5, U0, U4; 3, 5, 0, 4)),
        ("3x5x2x0", $m!(U3, U5, U2, U0; 3, 5, 2, 0)),
        ("3x6x0x5", $m!(U3, U6, U0, U5; 3, 6, 0, 5)),
        ("3x6x2x0", $m!(U3, U6, U2, U0; 3, 6, 2, 0)),
        ("3x7x0x6", $m!(U3, U7, U0, U6; 3, 7, 0, 6)),
        ("3x7x2x0", $m!(U3, U7, U2, U0; 3, 7, 2, 0)),
        ("3x8x0x7", $m!(U3, U8, U0, U7; 3, 8, 0, 7)),
        ("3x8x2x0", $m!(U3, U8, U2, U0; 3, 8, 2, 0)),
        ("3x9x0x8", $m!(U3, U9, U0, U8; 3, 9, 0, 8)),
        ("3x9x2x0", $m!(U3, U9, U2, U0; 3, 9, 2, 0)),
        ("3x10x0x9", $m!(U3, U10, U0, U9; 3, 10, 0, 9)),
        ("3x10x2x0", $m!(U3, U10, U2, U0; 3, 10, 2, 0)),
        ("3x11x0x10", $m!(U3, U11, U0, U10; 3, 11, 0, 10)),
        ("3x11x2x0", $m!(U3, U11, U2, U0; 3, 11, 2, 0)),
        ("3x12x0x11", $m!(U3, U12, U0, U11; 3, 12, 0, 11)),
        ("3x12x2x0", $m!(U3, U12, U2, U0; 3, 12, 2, 0)),
        ("3x13x0x12", $m!(U3, U13, U0, U12; 3, 13, 0, 12)),
        ("3x13x2x0", $m!(U3, U13, U2, U0; 3, 13, 2, 0)),
        ("3x13x2x9", $m!(U3, U13, U2, U9; 3, 13, 2, 9)),
        ("3x14x0x13", $m!(U3, U14, U0, U13; 3, 14, 0, 13)),
        ("3x14x2x0", $m!(U3, U14, U2, U0; 3, 14, 2, 0)),
        ("3x15x0x14", $m!(U3, U15, U0, U14; 3, 15, 0, 14)),
        ("3x15x2x0", $m!(U3, U15, U2, U0; 3, 15, 2, 0)),
        ("3x16x0x15", $m!(U3, U16, U0, U15; 3, 16, 0, 15)),
        ("3x16x2x0", $m!(U3, U16, U2, U0; 3, 16, 2, 0)),
        ("3x17x0x0", $m!(U3, U17, U0, U0; 3, 17, 0, 0)),
        ("3x17x0x16", $m!(U3, U17, U0, U16; 3, 17, 0, 16)),
        ("3x17x2x0", $m!(U3, U17, U2, U0; 3, 17, 2, 0)),
        ("3x17x2x16", $m!(U3, U17, U2, U16; 3, 17, 2, 16)),
        ("3x18x0x17", $m!(U3, U18, U0, U17; 3, 18, 0, 17)),
        ("3x18x2x0", $m!(U3, U18, U2, U0; 3, 18, 2, 0)),
        ("3x19x0x18", $m!(U3, U19, U0, U18; 3, 19, 0, 18)),
        ("3x19x1x5", $m!(U3, U19, U1, U5; 3, 19, 1, 5)),
        ("3x19x2x0", $m!(U3, U19, U2, U0; 3, 19, 2, 0)),
        ("3x20x0x19", $m!(U3, U20, U0, U19; 3, 20, 0, 19)),
        ("3x20x2x0", $m!(U3, U20, U2, U0; 3, 20, 2, 0)),
        ("3x21x0x20", $m!(U3, U21, U0, U20; 3, 21, 0, 20)),
        ("3x21x2x0", $m!(U3, U21, U2, U0; 3, 21, 2, 0)),
        ("3x22x0x21", $m!(U3, U22, U0, U21; 3, 22, 0, 21)),
        ("3x22x2x0", $m!(U3, U22, U2, U0; 3, 22, 2, 0)),
        ("3x23x0x22", $m!(U3, U23, U0, U22; 3, 23, 0, 22)),
        ("3x23x2x0", $m!(U3, U23, U2, U0; 3, 23, 2, 0)),
        ("3x24x0x23", $m!(U3, U24, U0, U23; 3, 24, 0, 23)),
        ("3x24x2x0", $m!(U3, U24, U2, U0; 3, 24, 2, 0)),
        ("3x25x0x24", $m!(U3, U25, U0, U24; 3, 25, 0, 24)),
        ("3x25x2x0", $m!(U3, U25, U2, U0; 3, 25, 2, 0)),
        ("3x26x0x25", $m!(U3, U26, U0, U25; 3, 26, 0, 25)),
        ("3x26x2x0", $m!(U3, U26, U2, U0; 3, 26, 2, 0)),
        ("3x27x0x26", $m!(U3, U27, U0, U26; 3, 27, 0, 26)),
        ("3x27x2x0", $m!(U3, U27, U2, U0; 3, 27, 2, 0)),
        ("3x28x0x27", $m!(U3, U28, U0, U27; 3, 28, 0, 27)),
        ("3x28x2x0", $m!(U3, U28, U2, U0; 3, 28, 2, 0)),
        ("3x29x0x28", $m!(U3, U29, U0, U28; 3, 29, 0, 28)),
        ("3x29x2x0", $m!(U3, U29, U2, U0; 3, 29, 2, 0)),
        ("3x30x0x29", $m!(U3, U30, U0, U29; 3, 30, 0, 29)),
        ("3x30x2x0", $m!(U3, U30, U2, U0; 3, 30, 2, 0)),
        ("3x31x0x30", $m!(U3, U31, U0, U30; 3, 31, 0, 30)),
        ("3x31x2x0", $m!(U3, U31, U2, U0; 3, 31, 2, 0)),
        ("3x32x0x31", $m!(U3, U32, U0, U31; 3, 32, 0, 31)),
        ("3x32x2x0", $m!(U3, U32, U2, U0; 3, 32, 2, 0)),
        ("4x1x0x0", $m!(U4, U1, U0, U0; 4, 1, 0, 0)),
        ("4x1x3x0", $m!(U4, U1, U3, U0; 4, 1, 3, 0)),
        ("4x2x0x0", $m!(U4, U2, U0, U0; 4, 2, 0, 0)),
        ("4x2x0x1", $m!(U4, U2, U0, U1; 4, 2, 0, 1)),
        ("4x2x3x0", $m!(U4, U2, U3, U0; 4, 2, 3, 0)),
        ("4x2x3x1", $m!(U4, U2, U3, U1; 4, 2, 3, 1)),
        ("4x3x0x0", $m!(U4, U3, U0, U0; 4, 3, 0, 0)),
        ("4x3x0x2", $m!(U4, U3, U0, U2; 4, 3, 0, 2)),
        ("4x3x3x0", $m!(U4, U3, U3, U0; 4, 3, 3, 0)),
        ("4x3x3x2", $m!(U4, U3, U3, U2; 4, 3, 3, 2)),
        ("4x12x0x0", $m!(U4, U12, U0, U0; 4, 12, 0, 0)),
        ("4x12x0x1", $m!(U4, U12, U0, U1; 4, 12, 0, 1)),
        ("4x12x0x11", $m!(U4, U12, U0, U11; 4, 12, 0, 11)),
        ("4x12x3x0", $m!(U4, U12, U3, U0; 4, 12, 3, 0)),
        ("4x12x3x11", $m!(U4, U12, U3, U11; 4, 12, 3, 11)),
        ("4x13x0x0", $m!(U4, U13, U0, U0; 4, 13, 0, 0)),
        ("4x13x0x12", $m!(U4, U13, U0, U12; 4, 13, 0, 12)),
        ("4x13x3x0", $m!(U4, U13, U3, U0; 4, 13, 3, 0)),
        ("4x13x3x12", $m!(U4, U13, U3, U12; 4, 13, 3, 12)),
        ("4x19x0x18", $m!(U4, U19, U0, U18; 4, 19, 0, 18)),
        ("4x19x3x0", $m!(U4, U19, U3, U0; 4, 19, 3, 0)),
        ("4x23x0x22", $m!(U4, U23, U0, U22; 4, 23, 0, 22)),
        ("4x23x3x0", $m!(U4, U23, U3, U0; 4, 23, 3, 0)),
        ("4x24x2x7", $m!(U4, U24, U2, U7; 4, 24, 2, 7)),
        ("4x26x3x4", $m!(U4, U26, U3, U4; 4, 26, 3, 4)),
        ("4x29x1x14", $m!(U4, U29, U1, U14; 4, 29, 1, 14)),
        ("5x1x0x0", $m!(U5, U1, U0, U0; 5, 1, 0, 0)),
        ("5x1x4x0", $m!(U5, U1, U4, U0; 5, 1, 4, 0)),
        ("5x2x0x0", $m!(U5, U2, U0, U0; 5, 2, 0, 0)),
        ("5x2x0x1", $m!(U5, U2, U0, U1; 5, 2, 0, 1)),
        ("5x2x4x0", $m!(U5, U2, U4, U0; 5, 2, 4, 0)),
        ("5x2x4x1", $m!(U5, U2, U4, U1; 5, 2, 4, 1)),
        ("5x3x0x0", $m!(U5, U3, U0, U0; 5, 3, 0, 0)),
        ("5x3x0x2", $m!(U5, U3, U0, U2; 5, 3, 0, 2)),
        ("5x3x4x0", $m!(U5, U3, U4, U0; 5, 3, 4, 0)),
        ("5x3x4x2", $m!(U5, U3, U4, U2; 5, 3, 4, 2)),
        ("5x20x0x0", $m!(U5, U20, U0, U0; 5, 20, 0, 0)),
        ("5x20x0x19", $m!(U5, U20, U0, U19; 5, 20, 0, 19)),
        ("5x20x4x0", $m!(U5, U20, U4, U0; 5, 20, 4, 0)),
        ("5x20x4x19", $m!(U5, U20, U4, U19; 5, 20, 4, 19)),
        ("5x21x0x20", $m!(U5, U21, U0, U20; 5, 21, 0, 20)),
        ("5x21x2x6", $m!(U5, U21, U2, U6; 5, 21, 2, 6)),
        ("5x21x4x0", $m!(U5, U21, U4, U0; 5, 21, 4, 0)),
        ("5x24x4x1", $m!(U5, U24, U4, U1; 5, 24, 4, 1)),
        ("5x25x1x3", $m!(U5, U25, U1, U3; 5, 25, 1, 3)),
        ("5x31x0x23", $m!(U5, U31, U0, U23; 5, 31, 0, 23)),
        ("5x32x3x19", $m!(U5, U32, U3, U19; 5, 32, 3, 19)),
        ("6x1x0x0", $m!(U6, U1, U0, U0; 6, 1, 0, 0)),
        ("6x1x5x0", $m!(U6, U1, U5, U0; 6, 1, 5, 0)),
        ("6x2x0x0", $m!(U6, U2, U0, U0; 6, 2, 0, 0)),
        ("6x2x0x1", $m!(U6, U2, U0, U1; 6, 2, 0, 1)),
        ("6x2x5x0", $m!(U6, U2, U5, U0; 6, 2, 5, 0)),
        ("6x2x5x1", $m!(U6, U2, U5, U1; 6, 2, 5, 1)),
        ("6x3x0x0", $m!(U6, U3, U0, U0; 6, 3, 0, 0)),
        ("6x3x0x2", $m!(U6, U3, U0, U2; 6, 3, 0, 2)),
        ("6x3x5x0", $m!(U6, U3, U5, U0; 6, 3, 5, 0)),
        ("6x3x5x2", $m!(U6, U3, U5, U2; 6, 3, 5, 2)),
        ("6x14x0x0", $m!(U6, U14, U0, U0; 6, 14, 0, 0)),
        ("6x14x0x13", $m!(U6, U14, U0, U13; 6, 14, 0, 13)),
        ("6x14x5x0", $m!(U6, U14, U5, U0; 6, 14, 5, 0)),
        ("6x14x5x13", $m!(U6, U14, U5, U13; 6, 14, 5, 13)),
        ("6x18x3x8", $m!(U6, U18, U3, U8; 6, 18, 3, 8)),
        ("6x19x0x0", $m!(U6, U19, U0, U0; 6, 19, 0, 0)),
        ("6x19x0x18", $m!(U6, U19, U0, U18; 6, 19, 0, 18)),
        ("6x19x5x0", $m!(U6, U19, U5, U0; 6, 19, 5, 0)),
        ("6x19x5x17", $m!(U6, U19, U5, U17; 6, 19, 5, 17)),
        ("6x19x5x18", $m!(U6, U19, U5, U18; 6, 19, 5, 18)),
        ("6x21x1x17", $m!(U6, U21, U1, U17; 6, 21, 1, 17)),
        ("6x23x0x22", $m!(U6, U23, U0, U22; 6, 23, 0, 22)),
        ("6x23x5x0", $m!(U6, U23, U5, U0; 6, 23, 5, 0)),
        ("6x25x0x20", $m!(U6, U25, U0, U20; 6, 25, 0, 20)),
        ("6x30x2x0", $m!(U6, U30, U2, U0; 6, 30, 2, 0)),
        ("6x32x4x3", $m!(U6, U32, U4, U3; 6, 32, 4, 3)),
        ("7x1x0x0", $m!(U7, U1, U0, U0; 7, 1, 0, 0)),
        ("7x1x6x0", $m!(U7, U1, U6, U0; 7, 1, 6, 0)),
        ("7x2x0x0", $m!(U7, U2, U0, U0; 7, 2, 0, 0)),
        ("7x2x0x1", $m!(U7, U2, U0, U1; 7, 2, 0, 1)),
        ("7x2x6x0", $m!(U7, U2, U6, U0; 7, 2, 6, 0)),
        ("7x2x6x1", $m!(U7, U2, U6, U1; 7, 2, 6, 1)),
        ("7x3x0x0", $m!(U7, U3, U0, U0; 7, 3, 0, 0)),
        ("7x3x0x2", $m!(U7, U3, U0, U2; 7, 3, 0, 2)),
        ("7x3x6x0", $m!(U7, U3, U6, U0; 7, 3, 6, 0)),
        ("7x3x6x2", $m!(U7, U3, U6, U2; 7, 3, 6, 2)),
        ("7x12x0x0", $m!(U7, U12, U0, U0; 7, 12, 0, 0)),
        ("7x12x0x11", $m!(U7, U12, U0, U11; 7, 12, 0, 11)),
        ("7x12x6x0", $m!(U7, U12, U6, U0; 7, 12, 6, 0)),
        ("7x12x6x11", $m!(U7, U12, U6, U11; 7, 12, 6, 11)),
        ("7x13x0x12", $m!(U7, U13, U0, U12; 7, 13, 0, 12)),
        ("7x13x6x0", $m!(U7, U13, U6, U0; 7, 13, 6, 0)),
        ("7x21x5x12", $m!(U7, U21, U5, U12; 7, 21, 5, 12)),
        ("7x23x3x22", $m!(U7, U23, U3, U22; 7, 23, 3, 22)),
        ("7x24x4x15", $m!(U7, U24, U4, U15; 7, 24, 4, 15)),
        ("7x29x0x0", $m!(U7, U29, U0, U0; 7, 29, 0, 0)),
        ("7x29x0x28", $m!(U7, U29, U0, U28; 7, 29, 0, 28)),
        ("7x29x2x26", $m!(U7, U29, U2, U26; 7, 29, 2, 26)),
        ("7x29x6x0", $m!(U7, U29, U6, U0; 7, 29, 6, 0)),
        ("7x29x6x5", $m!(U7, U29, U6, U5; 7, 29, 6, 5)),
        ("7x29x6x28", $m!(U7, U29, U6, U28; 7, 29, 6, 28)),
        ("7x30x0x20", $m!(U7, U30, U0, U20; 7, 30, 0, 20)),
        ("7x30x1x15", $m!(U7, U30, U1, U15; 7, 30, 1, 15)),
        ("8x1x0x0", $m!(U8, U1, U0, U0; 8, 1, 0, 0)),
        ("8x1x7x0", $m!(U8, U1, U7, U0; 8, 1, 7, 0)),
        ("8x2x0x0", $m!(U8, U2, U0, U0; 8, 2, 0, 0)),
        ("8x2x0x1", $m!(U8, U2, U0, U1; 8, 2, 0, 1)),
        ("8x2x7x0", $m!(U8, U2, U7, U0; 8, 2, 7, 0)),
        ("8x2x7x1", $m!(U8, U2, U7, U1; 8, 2, 7, 1)),
        ("8x3x0x0", $m!(U8, U3, U0, U0; 8, 3, 0, 0)),
        ("8x3x0x2", $m!(U8, U3, U0, U2; 8, 3, 0, 2)),
        ("8x3x7x0", $m!(U8, U3, U7, U0; 8, 3, 7, 0)),
        ("8x3x7x2", $m!(U8, U3, U7, U2; 8, 3, 7, 2)),
        ("8x12x1x3", $m!(U8, U12, U1, U3; 8, 12, 1, 3)),
        ("8x14x4x13", $m!(U8, U14, U4, U13; 8, 14, 4, 13)),
        ("8x14x5x0", $m!(U8, U14, U5, U0; 8, 14, 5, 0)),
        ("8x18x0x0", $m!(U8, U18, U0, U0; 8, 18, 0, 0)),
        ("8x18x0x17", $m!(U8, U18, U0, U17; 8, 18, 0, 17)),
        ("8x18x7x0", $m!(U8, U18, U7, U0; 8, 18, 7, 0)),
        ("8x18x7x17", $m!(U8, U18, U7, U17; 8, 18, 7, 17)),
        ("8x19x0x1", $m!(U8, U19, U0, U1; 8, 19, 0, 1)),
        ("8x20x7x1", $m!(U8, U20, U7, U1; 8, 20, 7, 1)),
        ("8x23x0x0", $m!(U8, U23, U0, U0; 8, 23, 0, 0)),
        ("8x23x0x22", $m!(U8, U23, U0, U22; 8, 23, 0, 22)),
        ("8x23x7x0", $m!(U8, U23, U7, U0; 8, 23, 7, 0)),
        ("8x23x7x22", $m!(U8, U23, U7, U22; 8, 23, 7, 22)),
        ("8x26x3x7", $m!(U8, U26, U3, U7; 8, 26, 3, 7)),
        ("8x29x2x25", $m!(U8, U29, U2, U25; 8, 29, 2, 25)),
        ("8x31x6x9", $m!(U8, U31, U6, U9; 8, 31, 6, 9)),
        ("9x1x0x0", $m!(U9, U1, U0, U0; 9, 1, 0, 0)),
        ("9x1x8x0", $m!(U9, U1, U8, U0; 9, 1, 8, 0)),
        ("9x2x0x0", $m!(U9, U2, U0, U0; 9, 2, 0, 0)),
        ("9x2x0x1", $m!(U9, U2, U0, U1; 9, 2, 0, 1)),
        ("9x2x8x0", $m!(U9, U2, U8, U0; 9, 2, 8, 0)),
        ("9x2x8x1", $m!(U9, U2, U8, U1; 9, 2, 8, 1)),
        ("9x3x0x0", $m!(U9, U3, U0, U0; 9, 3, 0, 0)),
        ("9x3x0x2", $m!(U9, U3, U0, U2; 9, 3, 0, 2)),
        ("9x3x8x0", $m!(U9, U3, U8, U0; 9, 3, 8, 0)),
        ("9x3x8x2", $m!(U9, U3, U8, U2; 9, 3, 8, 2)),
        ("9x6x4x1", $m!(U9, U6, U4, U1; 9, 6, 4, 1)),
        ("9x17x0x0", $m!(U9, U17, U0, U0; 9, 17, 0, 0)),
        ("9x17x0x16", $m!(U9, U17, U0, U16; 9, 17, 0, 16)),
        ("9x17x8x0", $m!(U9, U17, U8, U0; 9, 17, 8, 0)),
        ("9x17x8x16", $m!(U9, U17, U8, U16; 9, 17, 8, 16)),
        ("9x18x0x17", $m!(U9, U18, U0, U17; 9, 18, 0, 17)),
        ("9x18x8x0", $m!(U9, U18, U8, U0; 9, 18, 8, 0)),
        ("9x18x8x17", $m!(U9, U18, U8, U17; 9, 18, 8, 17)),
        ("9x20x0x19", $m!(U9, U20, U0, U19; 9, 20, 0, 19)),
        ("9x20x8x0", $m!(U9, U20, U8, U0; 9, 20, 8, 0)),
        ("9x22x3x4", $m!(U9, U22, U3, U4; 9, 22, 3, 4)),
        ("9x26x2x19", $m!(U9, U26, U2, U19; 9, 26, 2, 19)),
        ("9x26x6x25", $m!(U9, U26, U6, U25; 9, 26, 6, 25)),
        ("9x27x1x14", $m!(U9, U27, U1, U14; 9, 27, 1, 14)),
        ("9x28x0x2", $m!(U9, U28, U0, U2; 9, 28, 0, 2)),
        ("9x29x7x16", $m!(U9, U29, U7, U16; 9, 29, 7, 16)),
        ("9x31x5x5", $m!(U9, U31, U5, U5; 9, 31, 5, 5)),
        ("10x1x0x0", $m!(U10, U1, U0, U0; 10, 1, 0, 0)),
        ("10x1x9x0", $m!(U10, U1, U9, U0; 10, 1, 9, 0)),
        ("10x2x0x0", $m!(U10, U2, U0, U0; 10, 2, 0, 0)),
        ("10x2x0x1", $m!(U10, U2, U0, U1; 10, 2, 0, 1)),
        ("10x2x9x0", $m!(U10, U2, U9, U0; 10, 2, 9, 0)),
        ("10x2x9x1", $m!(U10, U2, U9, U1; 10, 2, 9, 1)),
        ("10x3x0x0", $m!(U10, U3, U0, U0; 10, 3, 0, 0)),
        ("10x3x0x2", $m!(U10, U3, U0, U2; 10, 3, 0, 2)),
        ("10x3x9x0", $m!(U10, U3, U9, U0; 10, 3, 9, 0)),
        ("10x3x9x2", $m!(U10, U3, U9, U2; 10, 3, 9, 2)),
        ("10x7x6x3", $m!(U10, U7, U6, U3; 10, 7, 6, 3)),
        ("10x13x1x1", $m!(U10, U13, U1, U1; 10, 13, 1, 1)),
        ("10x13x2x2", $m!(U10, U13, U2, U2; 10, 13, 2, 2)),
        ("10x14x4x9", $m!(U10, U14, U4, U9; 10, 14, 4, 9)),
        ("10x16x8x11", $m!(U10, U16, U8, U11; 10, 16, 8, 11)),
        ("10x17x0x10", $m!(U10, U17, U0, U10; 10, 17, 0, 10)),
        ("10x27x3x12", $m!(U10, U27, U3, U12; 10, 27, 3, 12)),
        ("10x27x5x11", $m!(U10, U27, U5, U11; 10, 27, 5, 11)),
        ("10x28x7x10", $m!(U10, U28, U7, U10; 10, 28, 7, 10)),
        ("10x32x9x13", $m!(U10, U32, U9, U13; 10, 32, 9, 13)),
        ("11x1x0x0", $m!(U11, U1, U0, U0; 11, 1, 0, 0)),
        ("11x1x10x0", $m!(U11, U1, U10, U0; 11, 1, 10, 0)),
        ("11x2x0x0", $m!(U11, U2, U0, U0; 11, 2, 0, 0)),
        ("11x2x0x1", $m!(U11, U2, U0, U1; 11, 2, 0, 1)),
        ("11x2x10x0", $m!(U11, U2, U10, U0; 11, 2, 10, 0)),
        ("11x2x10x1", $m!(U11, U2, U10, U1; 11, 2, 10, 1)),
        ("11x3x0x0", $m!(U11, U3, U0, U0; 11, 3, 0, 0)),
        ("11x3x0x2", $m!(U11, U3, U0, U2; 11, 3, 0, 2)),
        ("11x3x10x0", $m!(U11, U3, U10, U0; 11, 3, 10, 0)),
        ("11x3x10x2", $m!(U11, U3, U10, U2; 11, 3, 10, 2)),
        ("11x8x0x1", $m!(U11, U8, U0, U1; 11, 8, 0, 1)),
        ("11x13x0x0", $m!(U11, U13, U0, U0; 11, 13, 0, 0)),
        ("11x13x0x12", $m!(U11, U13, U0, U12; 11, 13, 0, 12)),
        ("11x13x5x3", $m!(U11, U13, U5, U3; 11, 13, 5, 3)),
        ("11x13x10x0", $m!(U11, U13, U10, U0; 11, 13, 10, 0)),
        ("11x13x10x12", $m!(U11, U13, U10, U12; 11, 13, 10, 12)),
        ("11x14x9x7", $m!(U11, U14, U9, U7; 11, 14, 9, 7)),
        ("11x14x10x4", $m!(U11, U14, U10, U4; 11, 14, 10, 4)),
        ("11x15x1x5", $m!(U11, U15, U1, U5; 11, 15, 1, 5)),
        ("11x17x3x7", $m!(U11, U17, U3, U7; 11, 17, 3, 7)),
        ("11x20x2x9", $m!(U11, U20, U2, U9; 11, 20, 2, 9)),
        ("11x21x8x1", $m!(U11, U21, U8, U1; 11, 21, 8, 1)),
        ("11x22x0x21", $m!(U11, U22, U0, U21; 11, 22, 0, 21)),
        ("11x22x10x0", $m!(U11, U22, U10, U0; 11, 22, 10, 0)),
        ("11x25x7x0", $m!(U11, U25, U7, U0; 11, 25, 7, 0)),
        ("11x27x0x26", $m!(U11, U27, U0, U26; 11, 27, 0, 26)),
        ("11x27x10x0", $m!(U11, U27, U10, U0; 11, 27, 10, 0)),
        ("11x29x6x9", $m!(U11, U29, U6, U9; 11, 29, 6, 9)),
        ("11x31x4x27", $m!(U11, U31, U4, U27; 11, 31, 4, 27)),
        ("12x1x0x0", $m!(U12, U1, U0, U0; 12, 1, 0, 0)),
        ("12x1x11x0", $m!(U12, U1, U11, U0; 12, 1, 11, 0)),
        ("12x2x0x0", $m!(U12, U2, U0, U0; 12, 2, 0, 0)),
        ("12x2x0x1", $m!(U12, U2, U0, U1; 12, 2, 0, 1)),
        ("12x2x11x0", $m!(U12, U2, U11, U0; 12, 2, 11, 0)),
        ("12x2x11x1", $m!(U12, U2, U11, U1; 12, 2, 11, 1)),
        ("12x3x0x0", $m!(U12, U3, U0, U0; 12, 3, 0, 0)),
        ("12x3x0x2", $m!(U12, U3, U0, U2; 12, 3, 0, 2)),
        ("12x3x11x0", $m!(U12, U3, U11, U0; 12, 3, 11, 0)),
        ("12x3x11x2", $m!(U12, U3, U11, U2; 12, 3, 11, 2)),
        ("12x4x0x3", $m!(U12, U4, U0, U3; 12, 4, 0, 3)),
        ("12x4x11x0", $m!(U12, U4, U11, U0; 12, 4, 11, 0)),
        ("12x5x9x2", $m!(U12, U5, U9, U2; 12, 5, 9, 2)),
        ("12x7x0x6", $m!(U12, U7, U0, U6; 12, 7, 0, 6)),
        ("12x7x11x0", $m!(U12, U7, U11, U0; 12, 7, 11, 0)),
        ("12x8x10x0", $m!(U12, U8, U10, U0; 12, 8, 10, 0)),
        ("12x11x3x0", $m!(U12, U11, U3, U0; 12, 11, 3, 0)),
        ("12x12x4x6", $m!(U12, U12, U4, U6; 12, 12, 4, 6)),
        ("12x15x2x3", $m!(U12, U15, U2, U3; 12, 15, 2, 3)),
        ("12x16x0x0", $m!(U12, U16, U0, U0; 12, 16, 0, 0)),
        ("12x16x0x15", $m!(U12, U16, U0, U15; 12, 16, 0, 15)),
        ("12x16x11x0", $m!(U12, U16, U11, U0; 12, 16, 11, 0)),
        ("12x16x11x15", $m!(U12, U16, U11, U15; 12, 16, 11, 15)),
        ("12x20x0x6", $m!(U12, U20, U0, U6; 12, 20, 0, 6)),
        ("12x22x6x12", $m!(U12, U22, U6, U12; 12, 22, 6, 12)),
        ("12x22x8x9", $m!(U12, U22, U8, U9; 12, 22, 8, 9)),
        ("12x27x0x26", $m!(U12, U27, U0, U26; 12, 27, 0, 26)),
        ("12x27x11x0", $m!(U12, U27, U11, U0; 12, 27, 11, 0)),
        ("12x28x1x15", $m!(U12, U28, U1, U15; 12, 28, 1, 15)),
        ("12x28x5x18", $m!(U12, U28, U5, U18; 12, 28, 5, 18)),
        ("12x29x7x6", $m!(U12, U29, U7, U6; 12, 29, 7, 6)),
        ("12x30x11x24", $m!(U12, U30, U11, U24; 12, 30, 11, 24)),
        ("12x31x0x0", $m!(U12, U31, U0, U0; 12, 31, 0, 0)),
        ("12x31x0x30", $m!(U12, U31, U0, U30; 12, 31, 0, 30)),
        ("12x31x11x0", $m!(U12, U31, U11, U0; 12, 31, 11, 0)),
        ("12x31x11x30", $m!(U12, U31, U11, U30; 12, 31, 11, 30)),
        ("13x1x0x0", $m!(U13, U1, U0, U0; 13, 1, 0, 0)),
        ("13x1x12x0", $m!(U13, U1, U12, U0; 13, 1, 12, 0)),
        ("13x2x0x0", $m!(U13, U2, U0, U0; 13, 2, 0, 0)),
        ("13x2x0x1", $m!(U13, U2, U0, U1; 13, 2, 0, 1)),
        ("13x2x12x0", $m!(U13, U2, U12, U0; 13, 2, 12, 0)),
        ("13x2x12x1", $m!(U13, U2, U12, U1; 13, 2, 12, 1)),
        ("13x3x0x0", $m!(U13, U3, U0, U0; 13, 3, 0, 0)),
        ("13x3x0x2", $m!(U13, U3, U0, U2; 13, 3, 0, 2)),
        ("13x3x12x0", $m!(U13, U3, U12, U0; 13, 3, 12, 0)),
        ("13x3x12x2", $m!(U13, U3, U12, U2; 13, 3, 12, 2)),
        ("13x4x0x3", $m!(U13, U4, U0, U3; 13, 4, 0, 3)),
        ("13x4x12x0", $m!(U13, U4, U12, U0; 13, 4, 12, 0)),
        ("13x4x12x3", $m!(U13, U4, U12, U3; 13, 4, 12, 3)),
        ("13x6x2x3", $m!(U13, U6, U2, U3; 13, 6, 2, 3)),
        ("13x6x4x4", $m!(U13, U6, U4, U4; 13, 6, 4, 4)),
        ("13x7x0x0", $m!(U13, U7, U0, U0; 13, 7, 0, 0)),
        ("13x7x0x6", $m!(U13, U7, U0, U6; 13, 7, 0, 6)),
        ("13x7x12x0", $m!(U13, U7, U12, U0; 13, 7, 12, 0)),
        ("13x7x12x6", $m!(U13, U7, U12, U6; 13, 7, 12, 6)),
        ("13x11x0x10", $m!(U13, U11, U0, U10; 13, 11, 0, 10)),
        ("13x11x12x0", $m!(U13, U11, U12, U0; 13, 11, 12, 0)),
        ("13x14x5x3", $m!(U13, U14, U5, U3; 13, 14, 5, 3)),
        ("13x17x0x16", $m!(U13, U17, U0, U16; 13, 17, 0, 16)),
        ("13x17x12x0", $m!(U13, U17, U12, U0; 13, 17, 12, 0)),
        ("13x20x1x5", $m!(U13, U20, U1, U5; 13, 20, 1, 5)),
        ("13x20x9x8", $m!(U13, U20, U9, U8; 13, 20, 9, 8)),
        ("13x20x11x17", $m!(U13, U20, U11, U17; 13, 20, 11, 17)),
        ("13x26x3x20", $m!(U13, U26, U3, U20; 13, 26, 3, 20)),
        ("13x29x0x0", $m!(U13, U29, U0, U0; 13, 29, 0, 0)),
        ("13x29x0x28", $m!(U13, U29, U0, U28; 13, 29, 0, 28)),
        ("13x29x10x1", $m!(U13, U29, U10, U1; 13, 29, 10, 1)),
        ("13x29x12x0", $m!(U13, U29, U12, U0; 13, 29, 12, 0)),
        ("13x29x12x28", $m!(U13, U29, U12, U28; 13, 29, 12, 28)),
        ("13x30x7x26", $m!(U13, U30, U7, U26; 13, 30, 7, 26)),
        ("13x31x0x8", $m!(U13, U31, U0, U8; 13, 31, 0, 8)),
        ("13x31x6x4", $m!(U13, U31, U6, U4; 13, 31, 6, 4)),
        ("13x31x8x17", $m!(U13, U31, U8, U17; 13, 31, 8, 17)),
        ("14x1x0x0", $m!(U14, U1, U0, U0; 14, 1, 0, 0)),
        ("14x1x13x0", $m!(U14, U1, U13, U0; 14, 1, 13, 0)),
        ("14x2x0x0", $m!(U14, U2, U0, U0; 14, 2, 0, 0)),
        ("14x2x0x1", $m!(U14, U2, U0, U1; 14, 2, 0, 1)),
        ("14x2x13x0", $m!(U14, U2, U13, U0; 14, 2, 13, 0)),
        ("14x2x13x1", $m!(U14, U2, U13, U1; 14, 2, 13, 1)),
        ("14x3x0x0", $m!(U14, U3, U0, U0; 14, 3, 0, 0)),
        ("14x3x0x2", $m!(U14, U3, U0, U2; 14, 3, 0, 2)),
        ("14x3x13x0", $m!(U14, U3, U13, U0; 14, 3, 13, 0)),
        ("14x3x13x2", $m!(U14, U3, U13, U2; 14, 3, 13, 2)),
        ("14x6x0x5", $m!(U14, U6, U0, U5; 14, 6, 0, 5)),
        ("14x6x5x2", $m!(U14, U6, U5, U2; 14, 6, 5, 2)),
        ("14x6x13x0", $m!(U14, U6, U13, U0; 14, 6, 13, 0)),
        ("14x15x6x4", $m!(U14, U15, U6, U4; 14, 15, 6, 4)),
        ("14x15x13x10", $m!(U14, U15, U13, U10; 14, 15, 13, 10)),
        ("14x16x0x15", $m!(U14, U16, U0, U15; 14, 16, 0, 15)),
        ("14x16x13x0", $m!(U14, U16, U13, U0; 14, 16, 13, 0)),
        ("14x17x3x1", $m!(U14, U17, U3, U1; 14, 17, 3, 1)),
        ("14x20x1x19", $m!(U14, U20, U1, U19; 14, 20, 1, 19)),
        ("14x20x10x18", $m!(U14, U20, U10, U18; 14, 20, 10, 18)),
        ("14x21x11x13", $m!(U14, U21, U11, U13; 14, 21, 11, 13)),
        ("14x22x2x3", $m!(U14, U22, U2, U3; 14, 22, 2, 3)),
        ("14x26x4x1", $m!(U14, U26, U4, U1; 14, 26, 4, 1)),
        ("14x28x0x0", $m!(U14, U28, U0, U0; 14, 28, 0, 0)),
        ("14x28x0x14", $m!(U14, U28, U0, U14; 14, 28, 0, 14)),
        ("14x28x0x27", $m!(U14, U28, U0, U27; 14, 28, 0, 27)),
        ("14x28x7x16", $m!(U14, U28, U7, U16; 14, 28, 7, 16)),
        ("14x28x13x0", $m!(U14, U28, U13, U0; 14, 28, 13, 0)),
        ("14x28x13x27", $m!(U14, U28, U13, U27; 14, 28, 13, 27)),
        ("14x30x8x12", $m!(U14, U30, U8, U12; 14, 30, 8, 12)),
        ("14x32x0x0", $m!(U14, U32, U0, U0; 14, 32, 0, 0)),
        ("14x32x0x31", $m!(U14, U32, U0, U31; 14, 32, 0, 31)),
        ("14x32x9x11", $m!(U14, U32, U9, U11; 14, 32, 9, 11)),
        ("14x32x12x6", $m!(U14, U32, U12, U6; 14, 32, 12, 6)),
        ("14x32x13x0", $m!(U14, U32, U13, U0; 14, 32, 13, 0)),
        ("14x32x13x31", $m!(U14, U32, U13, U31; 14, 32, 13, 31)),
        ("15x1x0x0", $m!(U15, U1, U0, U0; 15, 1, 0, 0)),
        ("15x1x14x0", $m!(U15, U1, U14, U0; 15, 1, 14, 0)),
        ("15x2x0x0", $m!(U15, U2, U0, U0; 15, 2, 0, 0)),
        ("15x2x0x1", $m!(U15, U2, U0, U1; 15, 2, 0, 1)),
        ("15x2x14x0", $m!(U15, U2, U14, U0; 15, 2, 14, 0)),
        ("15x2x14x1", $m!(U15, U2, U14, U1; 15, 2, 14, 1)),
        ("15x3x0x0", $m!(U15, U3, U0, U0; 15, 3, 0, 0)),
        ("15x3x0x2", $m!(U15, U3, U0, U2; 15, 3, 0, 2)),
        ("15x3x14x0", $m!(U15, U3, U14, U0; 15, 3, 14, 0)),
        ("15x3x14x2", $m!(U15, U3, U14, U2; 15, 3, 14, 2)),
        ("15x4x14x2", $m!(U15, U4, U14, U2; 15, 4, 14, 2)),
        ("15x11x8x10", $m!(U15, U11, U8, U10; 15, 11, 8, 10)),
        ("15x13x11x0", $m!(U15, U13, U11, U0; 15, 13, 11, 0)),
        ("15x14x1x12", $m!(U15, U14, U1, U12; 15, 14, 1, 12)),
        ("15x16x0x15", $m!(U15, U16, U0, U15; 15, 16, 0, 15)),
        ("15x16x4x5", $m!(U15, U16, U4, U5; 15, 16, 4, 5)),
        ("15x16x14x0", $m!(U15, U16, U14, U0; 15, 16, 14, 0)),
        ("15x18x0x12", $m!(U15, U18, U0, U12; 15, 18, 0, 12)),
        ("15x20x0x0", $m!(U15, U20, U0, U0; 15, 20, 0, 0)),
        ("15x20x0x19", $m!(U15, U20, U0, U19; 15, 20, 0, 19)),
        ("15x20x14x0", $m!(U15, U20, U14, U0; 15, 20, 14, 0)),
        ("15x20x14x19", $m!(U15, U20, U14, U19; 15, 20, 14, 19)),
        ("15x21x6x14", $m!(U15, U21, U6, U14; 15, 21, 6, 14)),
        ("15x25x5x15", $m!(U15, U25, U5, U15; 15, 25, 5, 15)),
        ("15x25x9x9", $m!(U15, U25, U9, U9; 15, 25, 9, 9)),
        ("15x26x0x0", $m!(U15, U26, U0, U0; 15, 26, 0, 0)),
        ("15x26x0x25", $m!(U15, U26, U0, U25; 15, 26, 0, 25)),
        ("15x26x14x0", $m!(U15, U26, U14, U0; 15, 26, 14, 0)),
        ("15x26x14x25", $m!(U15, U26, U14, U25; 15, 26, 14, 25)),
        ("15x27x10x26", $m!(U15, U27, U10, U26; 15, 27, 10, 26)),
        ("15x29x13x15", $m!(U15, U29, U13, U15; 15, 29, 13, 15)),
        ("15x30x7x17", $m!(U15, U30, U7, U17; 15, 30, 7, 17)),
        ("15x30x12x5", $m!(U15, U30, U12, U5; 15, 30, 12, 5)),
        ("15x31x2x24", $m!(U15, U31, U2, U24; 15, 31, 2, 24)),
        ("15x31x3x28", $m!(U15, U31, U3, U28; 15, 31, 3, 28)),
        ("16x1x0x0", $m!(U16, U1, U0, U0; 16, 1, 0, 0)),
        ("16x1x15x0", $m!(U16, U1, U15, U0; 16, 1, 15, 0)),
        ("16x2x0x0", $m!(U16, U2, U0, U0; 16, 2, 0, 0)),
        ("16x2x0x1", $m!(U16, U2, U0, U1; 16, 2, 0, 1)),
        ("16x2x15x0", $m!(U16, U2, U15, U0; 16, 2, 15, 0)),
        ("16x2x15x1", $m!(U16, U2, U15, U1; 16, 2, 15, 1)),
        ("16x3x0x0", $m!(U16, U3, U0, U0; 16, 3, 0, 0)),
        ("16x3x0x2", $m!(U16, U3, U0, U2; 16, 3, 0, 2)),
        ("16x3x15x0", $m!(U16, U3, U15, U0; 16, 3, 15, 0)),
        ("16x3x15x2", $m!(U16, U3, U15, U2; 16, 3, 15, 2)),
        ("16x5x8x0", $m!(U16, U5, U8, U0; 16, 5, 8, 0)),
        ("16x10x10x3", $m!(U16, U10, U10, U3; 16, 10, 10, 3)),
        ("16x11x5x2", $m!(U16, U11, U5, U2; 16, 11, 5, 2)),
        ("16x12x0x11", $m!(U16, U12, U0, U11; 16, 12, 0, 11)),
        ("16x12x15x0", $m!(U16, U12, U15, U0; 16, 12, 15, 0)),
        ("16x14x0x0", $m!(U16, U14, U0, U0; 16, 14, 0, 0)),
        ("16x14x0x13", $m!(U16, U14, U0, U13; 16, 14, 0, 13)),
        ("16x14x15x0", $m!(U16, U14, U15, U0; 16, 14, 15, 0)),
        ("16x14x15x13", $m!(U16, U14, U15, U13; 16, 14, 15, 13)),
        ("16x15x0x0", $m!(U16, U15, U0, U0; 16, 15, 0, 0)),
        ("16x15x0x14", $m!(U16, U15, U0, U14; 16, 15, 0, 14)),
        ("16x15x15x0", $m!(U16, U15, U15, U0; 16, 15, 15, 0)),
        ("16x15x15x14", $m!(U16, U15, U15, U14; 16, 15, 15, 14)),
        ("16x19x3x7", $m!(U16, U19, U3, U7; 16, 19, 3, 7)),
        ("16x22x14x0", $m!(U16, U22, U14, U0; 16, 22, 14, 0)),
        ("16x23x0x7", $m!(U16, U23, U0, U7; 16, 23, 0, 7)),
        ("16x23x12x2", $m!(U16, U23, U12, U2; 16, 23, 12, 2)),
        ("16x24x1x8", $m!(U16, U24, U1, U8; 16, 24, 1, 8)),
        ("16x25x0x24", $m!(U16, U25, U0, U24; 16, 25, 0, 24)),
        ("16x25x15x0", $m!(U16, U25, U15, U0; 16, 25, 15, 0)),
        ("16x26x13x8", $m!(U16, U26, U13, U8; 16, 26, 13, 8)),
        ("16x27x9x16", $m!(U16, U27, U9, U16; 16, 27, 9, 16)),
        ("16x27x15x9", $m!(U16, U27, U15, U9; 16, 27, 15, 9)),
        ("16x30x4x7", $m!(U16, U30, U4, U7; 16, 30, 4, 7)),
        ("16x31x0x30", $m!(U16, U31, U0, U30; 16, 31, 0, 30)),
        ("16x31x7x29", $m!(U16, U31, U7, U29; 16, 31, 7, 29)),
        ("16x31x15x0", $m!(U16, U31, U15, U0; 16, 31, 15, 0)),
        ("16x32x2x5", $m!(U16, U32, U2, U5; 16, 32, 2, 5)),
        ("16x32x6x22", $m!(U16, U32, U6, U22; 16, 32, 6, 22)),
        ("16x32x11x9", $m!(U16, U32, U11, U9; 16, 32, 11, 9)),
        ("17x1x0x0", $m!(U17, U1, U0, U0; 17, 1, 0, 0)),
        ("17x1x16x0", $m!(U17, U1, U16, U0; 17, 1, 16, 0)),
        ("17x2x0x0", $m!(U17, U2, U0, U0; 17, 2, 0, 0)),
        ("17x2x0x1", $m!(U17, U2, U0, U1; 17, 2, 0, 1)),
        ("17x2x7x0", $m!(U17, U2, U7, U0; 17, 2, 7, 0)),
        ("17x2x16x0", $m!(U17, U2, U16, U0; 17, 2, 16, 0)),
        ("17x2x16x1", $m!(U17, U2, U16, U1; 17, 2, 16, 1)),
        ("17x3x0x0", $m!(U17, U3, U0, U0; 17, 3, 0, 0)),
        ("17x3x0x2", $m!(U17, U3, U0, U2; 17, 3, 0, 2)),
        ("17x3x10x1", $m!(U17, U3, U10, U1; 17, 3, 10, 1)),
        ("17x3x16x0", $m!(U17, U3, U16, U0; 17, 3, 16, 0)),
        ("17x3x16x2", $m!(U17, U3, U16, U2; 17, 3, 16, 2)),
        ("17x9x0x8", $m!(U17, U9, U0, U8; 17, 9, 0, 8)),
        ("17x9x5x8", $m!(U17, U9, U5, U8; 17, 9, 5, 8)),
        ("17x9x16x0", $m!(U17, U9, U16, U0; 17, 9, 16, 0)),
        ("17x13x0x0", $m!(U17, U13, U0, U0; 17, 13, 0, 0)),
        ("17x13x0x12", $m!(U17, U13, U0, U12; 17, 13, 0, 12)),
        ("17x13x16x0", $m!(U17, U13, U16, U0; 17, 13, 16, 0)),
        ("17x13x16x12", $m!(U17, U13, U16, U12; 17, 13, 16, 12)),
        ("17x15x9x7", $m!(U17, U15, U9, U7; 17, 15, 9, 7)),
        ("17x16x11x10", $m!(U17, U16, U11, U10; 17, 16, 11, 10)),
        ("17x17x14x0", $m!(U17, U17, U14, U0; 17, 17, 14, 0)),
        ("17x18x6x2", $m!(U17, U18, U6, U2; 17, 18, 6, 2)),
        ("17x20x13x3", $m!(U17, U20, U13, U3; 17, 20, 13, 3)),
        ("17x21x0x20", $m!(U17, U21, U0, U20; 17, 21, 0, 20)),
        ("17x21x15x20", $m!(U17, U21, U15, U20; 17, 21, 15, 20)),
        ("17x21x16x0", $m!(U17, U21, U16, U0; 17, 21, 16, 0)),
        ("17x22x0x0", $m!(U17, U22, U0, U0; 17, 22, 0, 0)),
        ("17x22x0x21", $m!(U17, U22, U0, U21; 17, 22, 0, 21)),
        ("17x22x16x0", $m!(U17, U22, U16, U0; 17, 22, 16, 0)),
        ("17x22x16x21", $m!(U17, U22, U16, U21; 17, 22, 16, 21)),
        ("17x26x8x16", $m!(U17, U26, U8, U16; 17, 26, 8, 16)),
        ("17x27x0x1", $m!(U17, U27, U0, U1; 17, 27, 0, 1)),
        ("17x28x12x20", $m!(U17, U28, U12, U20; 17, 28, 12, 20)),
        ("17x29x0x28", $m!(U17, U29, U0, U28; 17, 29, 0, 28)),
        ("17x29x4x8", $m!(U17, U29, U4, U8; 17, 29, 4, 8)),
        ("17x29x16x0", $m!(U17, U29, U16, U0; 17, 29, 16, 0)),
        ("17x30x1x13", $m!(U17, U30, U1, U13; 17, 30, 1, 13)),
        ("17x30x2x25", $m!(U17, U30, U2, U25; 17, 30, 2, 25)),
        ("17x30x16x10", $m!(U17, U30, U16, U10; 17, 30, 16, 10)),
        ("17x32x3x4", $m!(U17, U32, U3, U4; 17, 32, 3, 4)),
        ("18x1x0x0", $m!(U18, U1, U0, U0; 18, 1, 0, 0)),
        ("18x1x17x0", $m!(U18, U1, U17, U0; 18, 1, 17, 0)),
        ("18x2x0x0", $m!(U18, U2, U0, U0; 18, 2, 0, 0)),
        ("18x2x0x1", $m!(U18, U2, U0, U1; 18, 2, 0, 1)),
        ("18x2x17x0", $m!(U18, U2, U17, U0; 18, 2, 17, 0)),
        ("18x2x17x1", $m!(U18, U2, U17, U1; 18, 2, 17, 1)),
        ("18x3x0x0", $m!(U18, U3, U0, U0; 18, 3, 0, 0)),
        ("18x3x0x2", $m!(U18, U3, U0, U2; 18, 3, 0, 2)),
        ("18x3x17x0", $m!(U18, U3, U17, U0; 18, 3, 17, 0)),
        ("18x3x17x2", $m!(U18, U3, U17, U2; 18, 3, 17, 2)),
        ("18x6x5x0", $m!(U18, U6, U5, U0; 18, 6, 5, 0)),
        ("18x8x0x7", $m!(U18, U8, U0, U7; 18, 8, 0, 7)),
        ("18x8x17x0", $m!(U18, U8, U17, U0; 18, 8, 17, 0)),
        ("18x9x0x0", $m!(U18, U9, U0, U0; 18, 9, 0, 0)),
        ("18x9x0x8", $m!(U18, U9, U0, U8; 18, 9, 0, 8)),
        ("18x9x17x0", $m!(U18, U9, U17, U0; 18, 9, 17, 0)),
        ("18x9x17x8", $m!(U18, U9, U17, U8; 18, 9, 17, 8)),
        ("18x11x12x6", $m!(U18, U11, U12, U6; 18, 11, 12, 6)),
        ("18x15x3x12", $m!(U18, U15, U3, U12; 18, 15, 3, 12)),
        ("18x15x7x2", $m!(U18, U15, U7, U2; 18, 15, 7, 2)),
        ("18x16x1x12", $m!(U18, U16, U1, U12; 18, 16, 1, 12)),
        ("18x16x13x8", $m!(U18, U16, U13, U8; 18, 16, 13, 8)),
        ("18x17x2x13", $m!(U18, U17, U2, U13; 18, 17, 2, 13)),
        ("18x17x8x3", $m!(U18, U17, U8, U3; 18, 17, 8, 3)),
        ("18x17x11x14", $m!(U18, U17, U11, U14; 18, 17, 11, 14)),
        ("18x19x6x9", $m!(U18, U19, U6, U9; 18, 19, 6, 9)),
        ("18x19x15x0", $m!(U18, U19, U15, U0; 18, 19, 15, 0)),
        ("18x22x9x20", $m!(U18, U22, U9, U20; 18, 22, 9, 20)),
        ("18x25x10x17", $m!(U18, U25, U10, U17; 18, 25, 10, 17)),
        ("18x26x0x0", $m!(U18, U26, U0, U0; 18, 26, 0, 0)),
        ("18x26x0x25", $m!(U18, U26, U0, U25; 18, 26, 0, 25)),
        ("18x26x14x18", $m!(U18, U26, U14, U18; 18, 26, 14, 18)),
        ("18x26x16x11", $m!(U18, U26, U16, U11; 18, 26, 16, 11)),
        ("18x26x17x0", $m!(U18, U26, U17, U0; 18, 26, 17, 0)),
        ("18x26x17x25", $m!(U18, U26, U17, U25; 18, 26, 17, 25)),
        ("18x28x0x27", $m!(U18, U28, U0, U27; 18, 28, 0, 27)),
        ("18x28x17x0", $m!(U18, U28, U17, U0; 18, 28, 17, 0)),
        ("18x28x17x22", $m!(U18, U28, U17, U22; 18, 28, 17, 22)),
        ("18x29x0x13", $m!(U18, U29, U0, U13; 18, 29, 0, 13)),
        ("18x29x4x10", $m!(U18, U29, U4, U10; 18, 29, 4, 10)),
        ("19x1x0x0", $m!(U19, U1, U0, U0; 19, 1, 0, 0)),
        ("19x1x18x0", $m!(U19, U1, U18, U0; 19, 1, 18, 0)),
        ("19x2x0x0", $m!(U19, U2, U0, U0; 19, 2, 0, 0)),
        ("19x2x0x1", $m!(U19, U2, U0, U1; 19, 2, 0, 1)),
        ("19x2x18x0", $m!(U19, U2, U18, U0; 19, 2, 18, 0)),
        ("19x2x18x1", $m!(U19, U2, U18, U1; 19, 2, 18, 1)),
        ("19x3x0x0", $m!(U19, U3, U0, U0; 19, 3, 0, 0)),
        ("19x3x0x2", $m!(U19, U3, U0, U2; 19, 3, 0, 2)),
        ("19x3x7x0", $m!(U19, U3, U7, U0; 19, 3, 7, 0)),
        ("19x3x8x2", $m!(U19, U3, U8, U2; 19, 3, 8, 2)),
        ("19x3x18x0", $m!(U19, U3, U18, U0; 19, 3, 18, 0)),
        ("19x3x18x2", $m!(U19, U3, U18, U2; 19, 3, 18, 2)),
        ("19x4x0x0", $m!(U19, U4, U0, U0; 19, 4, 0, 0)),
        ("19x4x0x3", $m!(U19, U4, U0, U3; 19, 4, 0, 3)),
        ("19x4x18x0", $m!(U19, U4, U18, U0; 19, 4, 18, 0)),
        ("19x4x18x3", $m!(U19, U4, U18, U3; 19, 4, 18, 3)),
        ("19x6x0x5", $m!(U19, U6, U0, U5; 19, 6, 0, 5)),
        ("19x6x18x0", $m!(U19, U6, U18, U0; 19, 6, 18, 0)),
        ("19x10x0x9", $m!(U19, U10, U0, U9; 19, 10, 0, 9)),
        ("19x16x15x1", $m!(U19, U16, U15, U1; 19, 16, 15, 1)),
        ("19x17x11x4", $m!(U19, U17, U11, U4; 19, 17, 11, 4)),
        ("19x18x6x13", $m!(U19, U18, U6, U13; 19, 18, 6, 13)),
        ("19x21x2x0", $m!(U19, U21, U2, U0; 19, 21, 2, 0)),
        ("19x22x5x6", $m!(U19, U22, U5, U6; 19, 22, 5, 6)),
        ("19x22x13x10", $m!(U19, U22, U13, U10; 19, 22, 13, 10)),
        ("19x23x0x0", $m!(U19, U23, U0, U0; 19, 23, 0, 0)),
        ("19x23x0x22", $m!(U19, U23, U0, U22; 19, 23, 0, 22)),
        ("19x23x14x18", $m!(U19, U23, U14, U18; 19, 23, 14, 18)),
        ("19x23x18x0", $m!(U19, U23, U18, U0; 19, 23, 18, 0)),
        ("19x23x18x22", $m!(U19, U23, U18, U22; 19, 23, 18, 22)),
        ("19x24x0x23", $m!(U19, U24, U0, U23; 19, 24, 0, 23)),
        ("19x24x18x0", $m!(U19, U24, U18, U0; 19, 24, 18, 0)),
        ("19x25x0x24", $m!(U19, U25, U0, U24; 19, 25, 0, 24)),
        ("19x25x16x8", $m!(U19, U25, U16, U8; 19, 25, 16, 8)),
        ("19x25x18x0", $m!(U19, U25, U18, U0; 19, 25, 18, 0)),
        ("19x26x4x21", $m!(U19, U26, U4, U21; 19, 26, 4, 21)),
        ("19x27x17x20", $m!(U19, U27, U17, U20; 19, 27, 17, 20)),
        ("19x28x9x25", $m!(U19, U28, U9, U25; 19, 28, 9, 25)),
        ("19x28x10x17", $m!(U19, U28, U10, U17; 19, 28, 10, 17)),
        ("19x29x3x3", $m!(U19, U29, U3, U3; 19, 29, 3, 3)),
        ("19x29x12x18", $m!(U19, U29, U12, U18; 19, 29, 12, 18)),
        ("19x30x18x1", $m!(U19, U30, U18, U1; 19, 30, 18, 1)),
        ("19x32x1x18", $m!(U19, U32, U1, U18; 19, 32, 1, 18)),
        ("20x1x0x0", $m!(U20, U1, U0, U0; 20, 1, 0, 0)),
        ("20x1x19x0", $m!(U20, U1, U19, U0; 20, 1, 19, 0)),
        ("20x2x0x0", $m!(U20, U2, U0, U0; 20, 2, 0, 0)),
        ("20x2x0x1", $m!(U20, U2, U0, U1; 20, 2, 0, 1)),
        ("20x2x19x0", $m!(U20, U2, U19, U0; 20, 2, 19, 0)),
        ("20x2x19x1", $m!(U20, U2, U19, U1; 20, 2, 19, 1)),
        ("20x3x0x0", $m!(U20, U3, U0, U0; 20, 3, 0, 0)),
        ("20x3x0x2", $m!(U20, U3, U0, U2; 20, 3, 0, 2)),
        ("20x3x19x0", $m!(U20, U3, U19, U0; 20, 3, 19, 0)),
        ("20x3x19x2", $m!(U20, U3, U19, U2; 20, 3, 19, 2)),
        ("20x4x4x1", $m!(U20, U4, U4, U1; 20, 4, 4, 1)),
        ("20x5x0x4", $m!(U20, U5, U0, U4; 20, 5, 0, 4)),
        ("20x5x19x0", $m!(U20, U5, U19, U0; 20, 5, 19, 0)),
        ("20x7x16x1", $m!(U20, U7, U16, U1; 20, 7, 16, 1)),
        ("20x9x0x0", $m!(U20, U9, U0, U0; 20, 9, 0, 0)),
        ("20x9x0x8", $m!(U20, U9, U0, U8; 20, 9, 0, 8)),
        ("20x9x7x4", $m!(U20, U9, U7, U4; 20, 9, 7, 4)),
        ("20x9x19x0", $m!(U20, U9, U19, U0; 20, 9, 19, 0)),
        ("20x9x19x8", $m!(U20, U9, U19, U8; 20, 9, 19, 8)),
        ("20x14x13x10", $m!(U20, U14, U13, U10; 20, 14, 13, 10)),
        ("20x15x0x14", $m!(U20, U15, U0, U14; 20, 15, 0, 14)),
        ("20x15x19x0", $m!(U20, U15, U19, U0; 20, 15, 19, 0)),
        ("20x17x2x15", $m!(U20, U17, U2, U15; 20, 17, 2, 15)),
        ("20x18x18x9", $m!(U20, U18, U18, U9; 20, 18, 18, 9)),
        ("20x19x14x13", $m!(U20, U19, U14, U13; 20, 19, 14, 13)),
        ("20x21x9x11", $m!(U20, U21, U9, U11; 20, 21, 9, 11)),
        ("20x23x11x6", $m!(U20, U23, U11, U6; 20, 23, 11, 6)),
        ("20x23x15x8", $m!(U20, U23, U15, U8; 20, 23, 15, 8)),
        ("20x23x17x16", $m!(U20, U23, U17, U16; 20, 23, 17, 16)),
        ("20x25x0x18", $m!(U20, U25, U0, U18; 20, 25, 0, 18)),
        ("20x26x6x13", $m!(U20, U26, U6, U13; 20, 26, 6, 13)),
        ("20x27x1x0", $m!(U20, U27, U1, U0; 20, 27, 1, 0)),
        ("20x27x12x2", $m!(U20, U27, U12, U2; 20, 27, 12, 2)),
        ("20x28x19x23", $m!(U20, U28, U19, U23; 20, 28, 19, 23)),
        ("20x31x5x3", $m!(U20, U31, U5, U3; 20, 31, 5, 3)),
        ("20x31x8x11", $m!(U20, U31, U8, U11; 20, 31, 8, 11)),
        ("20x31x10x7", $m!(U20, U31, U10, U7; 20, 31, 10, 7)),
        ("20x32x0x31", $m!(U20, U32, U0, U31; 20, 32, 0, 31)),
        ("20x32x3x21", $m!(U20, U32, U3, U21; 20, 32, 3, 21)),
        ("20x32x19x0", $m!(U20, U32, U19, U0; 20, 32, 19, 0)),
        ("21x1x0x0", $m!(U21, U1, U0, U0; 21, 1, 0, 0)),
        ("21x1x20x0", $m!(U21, U1, U20, U0; 21, 1, 20, 0)),
        ("21x2x0x0", $m!(U21, U2, U0, U0; 21, 2, 0, 0)),
        ("21x2x0x1", $m!(U21, U2, U0, U1; 21, 2, 0, 1)),
        ("21x2x20x0", $m!(U21, U2, U20, U0; 21, 2, 20, 0)),
        ("21x2x20x1", $m!(U21, U2, U20, U1; 21, 2, 20, 1)),
        ("21x3x0x0", $m!(U21, U3, U0, U0; 21, 3, 0, 0)),
        ("21x3x0x2", $m!(U21, U3, U0, U2; 21, 3, 0, 2)),
        ("21x3x20x0", $m!(U21, U3, U20, U0; 21, 3, 20, 0)),
        ("21x3x20x2", $m!(U21, U3, U20, U2; 21, 3, 20, 2)),
        ("21x5x0x0", $m!(U21, U5, U0, U0; 21, 5, 0, 0)),
        ("21x5x0x4", $m!(U21, U5, U0, U4; 21, 5, 0, 4)),
        ("21x5x20x0", $m!(U21, U5, U20, U0; 21, 5, 20, 0)),
        ("21x5x20x4", $m!(U21, U5, U20, U4; 21, 5, 20, 4)),
        ("21x7x11x0", $m!(U21, U7, U11, U0; 21, 7, 11, 0)),
        ("21x10x1x0", $m!(U21, U10, U1, U0; 21, 10, 1, 0)),
        ("21x17x0x0", $m!(U21, U17, U0, U0; 21, 17, 0, 0)),
        ("21x17x0x16", $m!(U21, U17, U0, U16; 21, 17, 0, 16)),
        ("21x17x20x0", $m!(U21, U17, U20, U0; 21, 17, 20, 0)),
        ("21x17x20x16", $m!(U21, U17, U20, U16; 21, 17, 20, 16)),
        ("21x18x9x16", $m!(U21, U18, U9, U16; 21, 18, 9, 16)),
        ("21x18x12x11", $m!(U21, U18, U12, U11; 21, 18, 12, 11)),
        ("21x18x15x14", $m!(U21, U18, U15, U14; 21, 18, 15, 14)),
        ("21x18x19x3", $m!(U21, U18, U19, U3; 21, 18, 19, 3)),
        ("21x21x2x16", $m!(U21, U21, U2, U16; 21, 21, 2, 16)),
        ("21x21x10x3", $m!(U21, U21, U10, U3; 21, 21, 10, 3)),
        ("21x23x5x13", $m!(U21, U23, U5, U13; 21, 23, 5, 13)),
        ("21x25x3x14", $m!(U21, U25, U3, U14; 21, 25, 3, 14)),
        ("21x25x4x2", $m!(U21, U25, U4, U2; 21, 25, 4, 2)),
        ("21x25x20x10", $m!(U21, U25, U20, U10; 21, 25, 20, 10)),
        ("21x26x6x5", $m!(U21, U26, U6, U5; 21, 26, 6, 5)),
        ("21x26x7x10", $m!(U21, U26, U7, U10; 21, 26, 7, 10)),
        ("21x26x13x3", $m!(U21, U26, U13, U3; 21, 26, 13, 3)),
        ("21x26x14x0", $m!(U21, U26, U14, U0; 21, 26, 14, 0)),
        ("21x28x0x3", $m!(U21, U28, U0, U3; 21, 28, 0, 3)),
        ("21x28x8x4", $m!(U21, U28, U8, U4; 21, 28, 8, 4)),
        ("21x29x16x28", $m!(U21, U29, U16, U28; 21, 29, 16, 28)),
        ("21x29x18x21", $m!(U21, U29, U18, U21; 21, 29, 18, 21)),
        ("21x30x17x2", $m!(U21, U30, U17, U2; 21, 30, 17, 2)),
        ("21x31x0x30", $m!(U21, U31, U0, U30; 21, 31, 0, 30)),
        ("21x31x20x0", $m!(U21, U31, U20, U0; 21, 31, 20, 0)),
        ("22x1x0x0", $m!(U22, U1, U0, U0; 22, 1, 0, 0)),
        ("22x1x21x0", $m!(U22, U1, U21, U0; 22, 1, 21, 0)),
        ("22x2x0x0", $m!(U22, U2, U0, U0; 22, 2, 0, 0)),
        ("22x2x0x1", $m!(U22, U2, U0, U1; 22, 2, 0, 1)),
        ("22x2x21x0", $m!(U22, U2, U21, U0; 22, 2, 21, 0)),
        ("22x2x21x1", $m!(U22, U2, U21, U1; 22, 2, 21, 1)),
        ("22x3x0x0", $m!(U22, U3, U0, U0; 22, 3, 0, 0)),
        ("22x3x0x2", $m!(U22, U3, U0, U2; 22, 3, 0, 2)),
        ("22x3x21x0", $m!(U22, U3, U21, U0; 22, 3, 21, 0)),
        ("22x3x21x2", $m!(U22, U3, U21, U2; 22, 3, 21, 2)),
        ("22x10x3x5", $m!(U22, U10, U3, U5; 22, 10, 3, 5)),
        ("22x11x0x0", $m!(U22, U11, U0, U0; 22, 11, 0, 0)),
        ("22x11x0x10", $m!(U22, U11, U0, U10; 22, 11, 0, 10)),
        ("22x11x5x3", $m!(U22, U11, U5, U3; 22, 11, 5, 3)),
        ("22x11x21x0", $m!(U22, U11, U21, U0; 22, 11, 21, 0)),
        ("22x11x21x10", $m!(U22, U11, U21, U10; 22, 11, 21, 10)),
        ("22x13x10x11", $m!(U22, U13, U10, U11; 22, 13, 10, 11)),
        ("22x16x0x3", $m!(U22, U16, U0, U3; 22, 16, 0, 3)),
        ("22x16x21x0", $m!(U22, U16, U21, U0; 22, 16, 21, 0)),
        ("22x17x0x16", $m!(U22, U17, U0, U16; 22, 17, 0, 16)),
        ("22x17x21x0", $m!(U22, U17, U21, U0; 22, 17, 21, 0)),
        ("22x20x13x16", $m!(U22, U20, U13, U16; 22, 20, 13, 16)),
        ("22x22x12x8", $m!(U22, U22, U12, U8; 22, 22, 12, 8)),
        ("22x22x16x13", $m!(U22, U22, U16, U13; 22, 22, 16, 13)),
        ("22x23x4x5", $m!(U22, U23, U4, U5; 22, 23, 4, 5)),
        ("22x24x1x11", $m!(U22, U24, U1, U11; 22, 24, 1, 11)),
        ("22x24x11x2", $m!(U22, U24, U11, U2; 22, 24, 11, 2)),
        ("22x25x6x13", $m!(U22, U25, U6, U13; 22, 25, 6, 13)),
        ("22x26x7x9", $m!(U22, U26, U7, U9; 22, 26, 7, 9)),
        ("22x26x9x22", $m!(U22, U26, U9, U22; 22, 26, 9, 22)),
        ("22x28x0x0", $m!(U22, U28, U0, U0; 22, 28, 0, 0)),
        ("22x28x0x27", $m!(U22, U28, U0, U27; 22, 28, 0, 27)),
        ("22x28x2x8", $m!(U22, U28, U2, U8; 22, 28, 2, 8)),
        ("22x28x20x1", $m!(U22, U28, U20, U1; 22, 28, 20, 1)),
        ("22x28x21x0", $m!(U22, U28, U21, U0; 22, 28, 21, 0)),
        ("22x28x21x27", $m!(U22, U28, U21, U27; 22, 28, 21, 27)),
        ("22x29x8x20", $m!(U22, U29, U8, U20; 22, 29, 8, 20)),
        ("22x30x0x29", $m!(U22, U30, U0, U29; 22, 30, 0, 29)),
        ("22x30x18x21", $m!(U22, U30, U18, U21; 22, 30, 18, 21)),
        ("22x30x21x0", $m!(U22, U30, U21, U0; 22, 30, 21, 0)),
        ("22x31x19x6", $m!(U22, U31, U19, U6; 22, 31, 19, 6)),
        ("22x32x14x14", $m!(U22, U32, U14, U14; 22, 32, 14, 14)),
        ("22x32x15x20", $m!(U22, U32, U15, U20; 22, 32, 15, 20)),
        ("22x32x17x30", $m!(U22, U32, U17, U30; 22, 32, 17, 30)),
        ("23x1x0x0", $m!(U23, U1, U0, U0; 23, 1, 0, 0)),
        ("23x1x22x0", $m!(U23, U1, U22, U0; 23, 1, 22, 0)),
        ("23x2x0x0", $m!(U23, U2, U0, U0; 23, 2, 0, 0)),
        ("23x2x0x1", $m!(U23, U2, U0, U1; 23, 2, 0, 1)),
        ("23x2x22x0", $m!(U23, U2, U22, U0; 23, 2, 22, 0)),
        ("23x2x22x1", $m!(U23, U2, U22, U1; 23, 2, 22, 1)),
        ("23x3x0x0", $m!(U23, U3, U0, U0; 23, 3, 0, 0)),
        ("23x3x0x2", $m!(U23, U3, U0, U2; 23, 3, 0, 2)),
        ("23x3x22x0", $m!(U23, U3, U22, U0; 23, 3, 22, 0)),
        ("23x3x22x2", $m!(U23, U3, U22, U2; 23, 3, 22, 2)),
        ("23x4x0x0", $m!(U23, U4, U0, U0; 23, 4, 0, 0)),
        ("23x4x0x3", $m!(U23, U4, U0, U3; 23, 4, 0, 3)),
        ("23x4x22x0", $m!(U23, U4, U22, U0; 23, 4, 22, 0)),
        ("23x4x22x3", $m!(U23, U4, U22, U3; 23, 4, 22, 3)),
        ("23x5x3x4", $m!(U23, U5, U3, U4; 23, 5, 3, 4)),
        ("23x6x0x0", $m!(U23, U6, U0, U0; 23, 6, 0, 0)),
        ("23x6x0x5", $m!(U23, U6, U0, U5; 23, 6, 0, 5)),
        ("23x6x22x0", $m!(U23, U6, U22, U0; 23, 6, 22, 0)),
        ("23x6x22x5", $m!(U23, U6, U22, U5; 23, 6, 22, 5)),
        ("23x8x0x7", $m!(U23, U8, U0, U7; 23, 8, 0, 7)),
        ("23x8x22x0", $m!(U23, U8, U22, U0; 23, 8, 22, 0)),
        ("23x10x20x1", $m!(U23, U10, U20, U1; 23, 10, 20, 1)),
        ("23x14x6x11", $m!(U23, U14, U6, U11; 23, 14, 6, 11)),
        ("23x14x10x8", $m!(U23, U14, U10, U8; 23, 14, 10, 8)),
        ("23x15x7x11", $m!(U23, U15, U7, U11; 23, 15, 7, 11)),
        ("23x16x9x2", $m!(U23, U16, U9, U2; 23, 16, 9, 2)),
        ("23x16x19x13", $m!(U23, U16, U19, U13; 23, 16, 19, 13)),
        ("23x17x21x16", $m!(U23, U17, U21, U16; 23, 17, 21, 16)),
        ("23x18x12x15", $m!(U23, U18, U12, U15; 23, 18, 12, 15)),
        ("23x19x0x18", $m!(U23, U19, U0, U18; 23, 19, 0, 18)),
        ("23x19x15x11", $m!(U23, U19, U15, U11; 23, 19, 15, 11)),
        ("23x19x17x16", $m!(U23, U19, U17, U16; 23, 19, 17, 16)),
        ("23x19x22x0", $m!(U23, U19, U22, U0; 23, 19, 22, 0)),
        ("23x20x1x12", $m!(U23, U20, U1, U12; 23, 20, 1, 12)),
        ("23x23x2x3", $m!(U23, U23, U2, U3; 23, 23, 2, 3)),
        ("23x23x11x14", $m!(U23, U23, U11, U14; 23, 23, 11, 14)),
        ("23x23x13x4", $m!(U23, U23, U13, U4; 23, 23, 13, 4)),
        ("23x23x18x12", $m!(U23, U23, U18, U12; 23, 23, 18, 12)),
        ("23x24x22x3", $m!(U23, U24, U22, U3; 23, 24, 22, 3)),
        ("23x25x8x23", $m!(U23, U25, U8, U23; 23, 25, 8, 23)),
        ("23x27x16x21", $m!(U23, U27, U16, U21; 23, 27, 16, 21)),
        ("23x28x5x5", $m!(U23, U28, U5, U5; 23, 28, 5, 5)),
        ("23x30x4x8", $m!(U23, U30, U4, U8; 23, 30, 4, 8)),
        ("23x32x0x17", $m!(U23, U32, U0, U17; 23, 32, 0, 17)),
        ("23x32x14x7", $m!(U23, U32, U14, U7; 23, 32, 14, 7)),
        ("24x1x0x0", $m!(U24, U1, U0, U0; 24, 1, 0, 0)),
        ("24x1x23x0", $m!(U24, U1, U23, U0; 24, 1, 23, 0)),
        ("24x2x0x0", $m!(U24, U2, U0, U0; 24, 2, 0, 0)),
        ("24x2x0x1", $m!(U24, U2, U0, U1; 24, 2, 0, 1)),
        ("24x2x23x0", $m!(U24, U2, U23, U0; 24, 2, 23, 0)),
        ("24x2x23x1", $m!(U24, U2, U23, U1; 24, 2, 23, 1)),
        ("24x3x0x0", $m!(U24, U3, U0, U0; 24, 3, 0, 0)),
        ("24x3x0x2", $m!(U24, U3, U0, U2; 24, 3, 0, 2)),
        ("24x3x23x0", $m!(U24, U3, U23, U0; 24, 3, 23, 0)),
        ("24x3x23x2", $m!(U24, U3, U23, U2; 24, 3, 23, 2)),
        ("24x9x13x7", $m!(U24, U9, U13, U7; 24, 9, 13, 7)),
        ("24x11x20x7", $m!(U24, U11, U20, U7; 24, 11, 20, 7)),
        ("24x12x1x9", $m!(U24, U12, U1, U9; 24, 12, 1, 9)),
        ("24x13x7x4", $m!(U24, U13, U7, U4; 24, 13, 7, 4)),
        ("24x16x9x15", $m!(U24, U16, U9, U15; 24, 16, 9, 15)),
        ("24x18x14x6", $m!(U24, U18, U14, U6; 24, 18, 14, 6)),
        ("24x19x0x0", $m!(U24, U19, U0, U0; 24, 19, 0, 0)),
        ("24x19x0x18", $m!(U24, U19, U0, U18; 24, 19, 0, 18)),
        ("24x19x23x0", $m!(U24, U19, U23, U0; 24, 19, 23, 0)),
        ("24x19x23x18", $m!(U24, U19, U23, U18; 24, 19, 23, 18)),
        ("24x22x15x16", $m!(U24, U22, U15, U16; 24, 22, 15, 16)),
        ("24x22x16x14", $m!(U24, U22, U16, U14; 24, 22, 16, 14)),
        ("24x22x18x18", $m!(U24, U22, U18, U18; 24, 22, 18, 18)),
        ("24x23x3x17", $m!(U24, U23, U3, U17; 24, 23, 3, 17)),
        ("24x23x6x11", $m!(U24, U23, U6, U11; 24, 23, 6, 11)),
        ("24x25x0x0", $m!(U24, U25, U0, U0; 24, 25, 0, 0)),
        ("24x25x0x5", $m!(U24, U25, U0, U5; 24, 25, 0, 5)),
        ("24x25x0x24", $m!(U24, U25, U0, U24; 24, 25, 0, 24)),
        ("24x25x22x6", $m!(U24, U25, U22, U6; 24, 25, 22, 6)),
        ("24x25x23x0", $m!(U24, U25, U23, U0; 24, 25, 23, 0)),
        ("24x25x23x24", $m!(U24, U25, U23, U24; 24, 25, 23, 24)),
        ("24x26x11x14", $m!(U24, U26, U11, U14; 24, 26, 11, 14)),
        ("24x28x5x11", $m!(U24, U28, U5, U11; 24, 28, 5, 11)),
        ("24x28x19x6", $m!(U24, U28, U19, U6; 24, 28, 19, 6)),
        ("24x28x23x12", $m!(U24, U28, U23, U12; 24, 28, 23, 12)),
        ("24x29x10x24", $m!(U24, U29, U10, U24; 24, 29, 10, 24)),
        ("24x30x0x29", $m!(U24, U30, U0, U29; 24, 30, 0, 29)),
        ("24x30x2x19", $m!(U24, U30, U2, U19; 24, 30, 2, 19)),
        ("24x30x4x29", $m!(U24, U30, U4, U29; 24, 30, 4, 29)),
        ("24x30x17x22", $m!(U24, U30, U17, U22; 24, 30, 17, 22)),
        ("24x30x21x16", $m!(U24, U30, U21, U16; 24, 30, 21, 16)),
        ("24x30x23x0", $m!(U24, U30, U23, U0; 24, 30, 23, 0)),
        ("24x31x8x10", $m!(U24, U31, U8, U10; 24, 31, 8, 10)),
        ("24x31x12x21", $m!(U24, U31, U12, U21; 24, 31, 12, 21)),
        ("25x1x0x0", $m!(U25, U1, U0, U0; 25, 1, 0, 0)),
        ("25x1x11x0", $m!(U25, U1, U11, U0; 25, 1, 11, 0)),
        ("25x1x24x0", $m!(U25, U1, U24, U0; 25, 1, 24, 0)),
        ("25x2x0x0", $m!(U25, U2, U0, U0; 25, 2, 0, 0)),
        ("25x2x0x1", $m!(U25, U2, U0, U1; 25, 2, 0, 1)),
        ("25x2x24x0", $m!(U25, U2, U24, U0; 25, 2, 24, 0)),
        ("25x2x24x1", $m!(U25, U2, U24, U1; 25, 2, 24, 1)),
        ("25x3x0x0", $m!(U25, U3, U0, U0; 25, 3, 0, 0)),
        ("25x3x0x2", $m!(U25, U3, U0, U2; 25, 3, 0, 2)),
        ("25x3x24x0", $m!(U25, U3, U24, U0; 25, 3, 24, 0)),
        ("25x3x24x2", $m!(U25, U3, U24, U2; 25, 3, 24, 2)),
        ("25x5x5x3", $m!(U25, U5, U5, U3; 25, 5, 5, 3)),
        ("25x7x13x5", $m!(U25, U7, U13, U5; 25, 7, 13, 5)),
        ("25x8x20x6", $m!(U25, U8, U20, U6; 25, 8, 20, 6)),
        ("25x9x4x0", $m!(U25, U9, U4, U0; 25, 9, 4, 0)),
        ("25x10x7x6", $m!(U25, U10, U7, U6; 25, 10, 7, 6)),
        ("25x11x16x1", $m!(U25, U11, U16, U1; 25, 11, 16, 1)),
        ("25x12x1x10", $m!(U25, U12, U1, U10; 25, 12, 1, 10)),
        ("25x13x17x5", $m!(U25, U13, U17, U5; 25, 13, 17, 5)),
        ("25x14x21x6", $m!(U25, U14, U21, U6; 25, 14, 21, 6)),
        ("25x15x19x1", $m!(U25, U15, U19, U1; 25, 15, 19, 1)),
        ("25x16x0x0", $m!(U25, U16, U0, U0; 25, 16, 0, 0)),
        ("25x16x0x9", $m!(U25, U16, U0, U9; 25, 16, 0, 9)),
        ("25x16x0x15", $m!(U25, U16, U0, U15; 25, 16, 0, 15)),
        ("25x16x24x0", $m!(U25, U16, U24, U0; 25, 16, 24, 0)),
        ("25x16x24x15", $m!(U25, U16, U24, U15; 25, 16, 24, 15)),
        ("25x19x0x0", $m!(U25, U19, U0, U0; 25, 19, 0, 0)),
        ("25x19x0x18", $m!(U25, U19, U0, U18; 25, 19, 0, 18)),
        ("25x19x6x15", $m!(U25, U19, U6, U15; 25, 19, 6, 15)),
        ("25x19x24x0", $m!(U25, U19, U24, U0; 25, 19, 24, 0)),
        ("25x19x24x18", $m!(U25, U19, U24, U18; 25, 19, 24, 18)),
        ("25x20x2x2", $m!(U25, U20, U2, U2; 25, 20, 2, 2)),
        ("25x21x18x15", $m!(U25, U21, U18, U15; 25, 21, 18, 15)),
        ("25x23x8x21", $m!(U25, U23, U8, U21; 25, 23, 8, 21)),
        ("25x24x0x23", $m!(U25, U24, U0, U23; 25, 24, 0, 23)),
        ("25x24x10x14", $m!(U25, U24, U10, U14; 25, 24, 10, 14)),
        ("25x24x24x0", $m!(U25, U24, U24, U0; 25, 24, 24, 0)),
        ("25x25x3x19", $m!(U25, U25, U3, U19; 25, 25, 3, 19)),
        ("25x25x14x7", $m!(U25, U25, U14, U7; 25, 25, 14, 7)),
        ("25x25x24x24", $m!(U25, U25, U24, U24; 25, 25, 24, 24)),
        ("25x27x9x3", $m!(U25, U27, U9, U3; 25, 27, 9, 3)),
        ("25x27x23x19", $m!(U25, U27, U23, U19; 25, 27, 23, 19)),
        ("25x28x22x24", $m!(U25, U28, U22, U24; 25, 28, 22, 24)),
        ("25x31x12x12", $m!(U25, U31, U12, U12; 25, 31, 12, 12)),
        ("25x31x15x15", $m!(U25, U31, U15, U15; 25, 31, 15, 15)),
        ("26x1x0x0", $m!(U26, U1, U0, U0; 26, 1, 0, 0)),
        ("26x1x25x0", $m!(U26, U1, U25, U0; 26, 1, 25, 0)),
        ("26x2x0x0", $m!(U26, U2, U0, U0; 26, 2, 0, 0)),
        ("26x2x0x1", $m!(U26, U2, U0, U1; 26, 2, 0, 1)),
        ("26x2x19x1", $m!(U26, U2, U19, U1; 26, 2, 19, 1)),
        ("26x2x25x0", $m!(U26, U2, U25, U0; 26, 2, 25, 0)),
        ("26x2x25x1", $m!(U26, U2, U25, U1; 26, 2, 25, 1)),
        ("26x3x0x0", $m!(U26, U3, U0, U0; 26, 3, 0, 0)),
        ("26x3x0x2", $m!(U26, U3, U0, U2; 26, 3, 0, 2)),
        ("26x3x25x0", $m!(U26, U3, U25, U0; 26, 3, 25, 0)),
        ("26x3x25x2", $m!(U26, U3, U25, U2; 26, 3, 25, 2)),
        ("26x4x25x0", $m!(U26, U4, U25, U0; 26, 4, 25, 0)),
        ("26x7x8x6", $m!(U26, U7, U8, U6; 26, 7, 8, 6)),
        ("26x10x1x8", $m!(U26, U10, U1, U8; 26, 10, 1, 8)),
        ("26x11x11x9", $m!(U26, U11, U11, U9; 26, 11, 11, 9)),
        ("26x14x22x2", $m!(U26, U14, U22, U2; 26, 14, 22, 2)),
        ("26x15x0x14", $m!(U26, U15, U0, U14; 26, 15, 0, 14)),
        ("26x15x25x0", $m!(U26, U15, U25, U0; 26, 15, 25, 0)),
        ("26x16x21x14", $m!(U26, U16, U21, U14; 26, 16, 21, 14)),
        ("26x17x20x8", $m!(U26, U17, U20, U8; 26, 17, 20, 8)),
        ("26x18x0x17", $m!(U26, U18, U0, U17; 26, 18, 0, 17)),
        ("26x18x12x10", $m!(U26, U18, U12, U10; 26, 18, 12, 10)),
        ("26x18x25x0", $m!(U26, U18, U25, U0; 26, 18, 25, 0)),
        ("26x19x15x18", $m!(U26, U19, U15, U18; 26, 19, 15, 18)),
        ("26x20x2x11", $m!(U26, U20, U2, U11; 26, 20, 2, 11)),
        ("26x20x3x14", $m!(U26, U20, U3, U14; 26, 20, 3, 14)),
        ("26x22x24x17", $m!(U26, U22, U24, U17; 26, 22, 24, 17)),
        ("26x23x10x10", $m!(U26, U23, U10, U10; 26, 23, 10, 10)),
        ("26x23x16x20", $m!(U26, U23, U16, U20; 26, 23, 16, 20)),
        ("26x25x23x1", $m!(U26, U25, U23, U1; 26, 25, 23, 1)),
        ("26x27x4x25", $m!(U26, U27, U4, U25; 26, 27, 4, 25)),
        ("26x27x5x24", $m!(U26, U27, U5, U24; 26, 27, 5, 24)),
        ("26x28x14x7", $m!(U26, U28, U14, U7; 26, 28, 14, 7)),
        ("26x29x7x4", $m!(U26, U29, U7, U4; 26, 29, 7, 4)),
        ("26x29x17x27", $m!(U26, U29, U17, U27; 26, 29, 17, 27)),
        ("26x30x0x0", $m!(U26, U30, U0, U0; 26, 30, 0, 0)),
        ("26x30x0x29", $m!(U26, U30, U0, U29; 26, 30, 0, 29)),
        ("26x30x25x0", $m!(U26, U30, U25, U0; 26, 30, 25, 0)),
        ("26x30x25x29", $m!(U26, U30, U25, U29; 26, 30, 25, 29)),
        ("26x31x6x16", $m!(U26, U31, U6, U16; 26, 31, 6, 16)),
        ("26x31x9x0", $m!(U26, U31, U9, U0; 26, 31, 9, 0)),
        ("26x32x0x16", $m!(U26, U32, U0, U16; 26, 32, 0, 16)),
        ("26x32x13x10", $m!(U26, U32, U13, U10; 26, 32, 13, 10)),
        ("26x32x18x27", $m!(U26, U32, U18, U27; 26, 32, 18, 27)),
        ("27x1x0x0", $m!(U27, U1, U0, U0; 27, 1, 0, 0)),
        ("27x1x26x0", $m!(U27, U1, U26, U0; 27, 1, 26, 0)),
        ("27x2x0x0", $m!(U27, U2, U0, U0; 27, 2, 0, 0)),
        ("27x2x0x1", $m!(U27, U2, U0, U1; 27, 2, 0, 1)),
        ("27x2x26x0", $m!(U27, U2, U26, U0; 27, 2, 26, 0)),
        ("27x2x26x1", $m!(U27, U2, U26, U1; 27, 2, 26, 1)),
        ("27x3x0x0", $m!(U27, U3, U0, U0; 27, 3, 0, 0)),
        ("27x3x0x2", $m!(U27, U3, U0, U2; 27, 3, 0, 2)),
        ("27x3x26x0", $m!(U27, U3, U26, U0; 27, 3, 26, 0)),
        ("27x3x26x2", $m!(U27, U3, U26, U2; 27, 3, 26, 2)),
        ("27x9x5x6", $m!(U27, U9, U5, U6; 27, 9, 5, 6)),
        ("27x11x0x0", $m!(U27, U11, U0, U0; 27, 11, 0, 0)),
        ("27x11x0x10", $m!(U27, U11, U0, U10; 27, 11, 0, 10)),
        ("27x11x26x0", $m!(U27, U11, U26, U0; 27, 11, 26, 0)),
        ("27x11x26x10", $m!(U27, U11, U26, U10; 27, 11, 26, 10)),
        ("27x12x0x0", $m!(U27, U12, U0, U0; 27, 12, 0, 0)),
        ("27x12x0x11", $m!(U27, U12, U0, U11; 27, 12, 0, 11)),
        ("27x12x16x4", $m!(U27, U12, U16, U4; 27, 12, 16, 4)),
        ("27x12x26x0", $m!(U27, U12, U26, U0; 27, 12, 26, 0)),
        ("27x12x26x11", $m!(U27, U12, U26, U11; 27, 12, 26, 11)),
        ("27x13x4x12", $m!(U27, U13, U4, U12; 27, 13, 4, 12)),
        ("27x13x21x7", $m!(U27, U13, U21, U7; 27, 13, 21, 7)),
        ("27x15x0x14", $m!(U27, U15, U0, U14; 27, 15, 0, 14)),
        ("27x15x7x13", $m!(U27, U15, U7, U13; 27, 15, 7, 13)),
        ("27x16x26x6", $m!(U27, U16, U26, U6; 27, 16, 26, 6)),
        ("27x17x17x6", $m!(U27, U17, U17, U6; 27, 17, 17, 6)),
        ("27x19x10x12", $m!(U27, U19, U10, U12; 27, 19, 10, 12)),
        ("27x20x8x4", $m!(U27, U20, U8, U4; 27, 20, 8, 4)),
        ("27x20x19x15", $m!(U27, U20, U19, U15; 27, 20, 19, 15)),
        ("27x20x24x10", $m!(U27, U20, U24, U10; 27, 20, 24, 10)),
        ("27x21x11x2", $m!(U27, U21, U11, U2; 27, 21, 11, 2)),
        ("27x21x15x10", $m!(U27, U21, U15, U10; 27, 21, 15, 10)),
        ("27x24x18x5", $m!(U27, U24, U18, U5; 27, 24, 18, 5)),
        ("27x26x1x12", $m!(U27, U26, U1, U12; 27, 26, 1, 12)),
        ("27x27x2x7", $m!(U27, U27, U2, U7; 27, 27, 2, 7)),
        ("27x27x12x10", $m!(U27, U27, U12, U10; 27, 27, 12, 10)),
        ("27x27x13x17", $m!(U27, U27, U13, U17; 27, 27, 13, 17)),
        ("27x27x14x18", $m!(U27, U27, U14, U18; 27, 27, 14, 18)),
        ("27x29x6x23", $m!(U27, U29, U6, U23; 27, 29, 6, 23)),
        ("27x29x23x7", $m!(U27, U29, U23, U7; 27, 29, 23, 7)),
        ("27x30x3x14", $m!(U27, U30, U3, U14; 27, 30, 3, 14)),
        ("27x30x22x11", $m!(U27, U30, U22, U11; 27, 30, 22, 11)),
        ("27x31x9x14", $m!(U27, U31, U9, U14; 27, 31, 9, 14)),
        ("27x31x20x25", $m!(U27, U31, U20, U25; 27, 31, 20, 25)),
        ("27x31x25x30", $m!(U27, U31, U25, U30; 27, 31, 25, 30)),
        ("28x1x0x0", $m!(U28, U1, U0, U0; 28, 1, 0, 0)),
        ("28x1x27x0", $m!(U28, U1, U27, U0; 28, 1, 27, 0)),
        ("28x2x0x0", $m!(U28, U2, U0, U0; 28, 2, 0, 0)),
        ("28x2x0x1", $m!(U28, U2, U0, U1; 28, 2, 0, 1)),
        ("28x2x27x0", $m!(U28, U2, U27, U0; 28, 2, 27, 0)),
        ("28x2x27x1", $m!(U28, U2, U27, U1; 28, 2, 27, 1)),
        ("28x3x0x0", $m!(U28, U3, U0, U0; 28, 3, 0, 0)),
        ("28x3x0x2", $m!(U28, U3, U0, U2; 28, 3, 0, 2)),
        ("28x3x27x0", $m!(U28, U3, U27, U0; 28, 3, 27, 0)),
        ("28x3x27x2", $m!(U28, U3, U27, U2; 28, 3, 27, 2)),
        ("28x5x11x1", $m!(U28, U5, U11, U1; 28, 5, 11, 1)),
        ("28x8x25x5", $m!(U28, U8, U25, U5; 28, 8, 25, 5)),
        ("28x12x1x0", $m!(U28, U12, U1, U0; 28, 12, 1, 0)),
        ("28x13x8x8", $m!(U28, U13, U8, U8; 28, 13, 8, 8)),
        ("28x14x0x13", $m!(U28, U14, U0, U13; 28, 14, 0, 13)),
        ("28x14x27x0", $m!(U28, U14, U27, U0; 28, 14, 27, 0)),
        ("28x15x3x6", $m!(U28, U15, U3, U6; 28, 15, 3, 6)),
        ("28x17x16x9", $m!(U28, U17, U16, U9; 28, 17, 16, 9)),
        ("28x18x0x0", $m!(U28, U18, U0, U0; 28, 18, 0, 0)),
        ("28x18x0x17", $m!(U28, U18, U0, U17; 28, 18, 0, 17)),
        ("28x18x21x5", $m!(U28, U18, U21, U5; 28, 18, 21, 5)),
        ("28x18x27x0", $m!(U28, U18, U27, U0; 28, 18, 27, 0)),
        ("28x18x27x17", $m!(U28, U18, U27, U17; 28, 18, 27, 17)),
        ("28x19x9x10", $m!(U28, U19, U9, U10; 28, 19, 9, 10)),
        ("28x19x12x6", $m!(U28, U19, U12, U6; 28, 19, 12, 6)),
        ("28x20x14x7", $m!(U28, U20, U14, U7; 28, 20, 14, 7)),
        ("28x21x17x18", $m!(U28, U21, U17, U18; 28, 21, 17, 18)),
        ("28x22x0x21", $m!(U28, U22, U0, U21; 28, 22, 0, 21)),
        ("28x22x5x21", $m!(U28, U22, U5, U21; 28, 22, 5, 21)),
        ("28x22x10x5", $m!(U28, U22, U10, U5; 28, 22, 10, 5)),
        ("28x22x27x0", $m!(U28, U22, U27, U0; 28, 22, 27, 0)),
        ("28x25x7x12", $m!(U28, U25, U7, U12; 28, 25, 7, 12)),
        ("28x26x26x15", $m!(U28, U26, U26, U15; 28, 26, 26, 15)),
        ("28x27x15x15", $m!(U28, U27, U15, U15; 28, 27, 15, 15)),
        ("28x27x22x8", $m!(U28, U27, U22, U8; 28, 27, 22, 8)),
        ("28x27x27x5", $m!(U28, U27, U27, U5; 28, 27, 27, 5)),
        ("28x28x0x0", $m!(U28, U28, U0, U0; 28, 28, 0, 0)),
        ("28x29x0x0", $m!(U28, U29, U0, U0; 28, 29, 0, 0)),
        ("28x29x0x28", $m!(U28, U29, U0, U28; 28, 29, 0, 28)),
        ("28x29x13x19", $m!(U28, U29, U13, U19; 28, 29, 13, 19)),
        ("28x29x27x0", $m!(U28, U29, U27, U0; 28, 29, 27, 0)),
        ("28x29x27x28", $m!(U28, U29, U27, U28; 28, 29, 27, 28)),
        ("28x30x2x3", $m!(U28, U30, U2, U3; 28, 30, 2, 3)),
        ("28x30x18x27", $m!(U28, U30, U18, U27; 28, 30, 18, 27)),
        ("28x31x4x1", $m!(U28, U31, U4, U1; 28, 31, 4, 1)),
        ("28x32x6x24", $m!(U28, U32, U6, U24; 28, 32, 6, 24)),
        ("28x32x19x1", $m!(U28, U32, U19, U1; 28, 32, 19, 1)),
        ("28x32x20x31", $m!(U28, U32, U20, U31; 28, 32, 20, 31)),
        ("28x32x23x25", $m!(U28, U32, U23, U25; 28, 32, 23, 25)),
        ("28x32x24x2", $m!(U28, U32, U24, U2; 28, 32, 24, 2)),
        ("29x1x0x0", $m!(U29, U1, U0, U0; 29, 1, 0, 0)),
        ("29x1x28x0", $m!(U29, U1, U28, U0; 29, 1, 28, 0)),
        ("29x2x0x0", $m!(U29, U2, U0, U0; 29, 2, 0, 0)),
        ("29x2x0x1", $m!(U29, U2, U0, U1; 29, 2, 0, 1)),
        ("29x2x28x0", $m!(U29, U2, U28, U0; 29, 2, 28, 0)),
        ("29x2x28x1", $m!(U29, U2, U28, U1; 29, 2, 28, 1)),
        ("29x3x0x0", $m!(U29, U3, U0, U0; 29, 3, 0, 0)),
        ("29x3x0x2", $m!(U29, U3, U0, U2; 29, 3, 0, 2)),
        ("29x3x28x0", $m!(U29, U3, U28, U0; 29, 3, 28, 0)),
        ("29x3x28x2", $m!(U29, U3, U28, U2; 29, 3, 28, 2)),
        ("29x6x20x5", $m!(U29, U6, U20, U5; 29, 6, 20, 5)),
        ("29x7x0x6", $m!(U29, U7, U0, U6; 29, 7, 0, 6)),
        ("29x7x28x0", $m!(U29, U7, U28, U0; 29, 7, 28, 0)),
        ("29x8x3x7", $m!(U29, U8, U3, U7; 29, 8, 3, 7)),
        ("29x9x18x3", $m!(U29, U9, U18, U3; 29, 9, 18, 3)),
        ("29x10x2x2", $m!(U29, U10, U2, U2; 29, 10, 2, 2)),
        ("29x12x23x11", $m!(U29, U12, U23, U11; 29, 12, 23, 11)),
        ("29x13x0x12", $m!(U29, U13, U0, U12; 29, 13, 0, 12)),
        ("29x13x26x6", $m!(U29, U13, U26, U6; 29, 13, 26, 6)),
        ("29x13x28x0", $m!(U29, U13, U28, U0; 29, 13, 28, 0)),
        ("29x17x0x0", $m!(U29, U17, U0, U0; 29, 17, 0, 0)),
        ("29x17x0x16", $m!(U29, U17, U0, U16; 29, 17, 0, 16)),
        ("29x17x1x2", $m!(U29, U17, U1, U2; 29, 17, 1, 2)),
        ("29x17x28x0", $m!(U29, U17, U28, U0; 29, 17, 28, 0)),
        ("29x17x28x16", $m!(U29, U17, U28, U16; 29, 17, 28, 16)),
        ("29x19x9x8", $m!(U29, U19, U9, U8; 29, 19, 9, 8)),
        ("29x19x11x3", $m!(U29, U19, U11, U3; 29, 19, 11, 3)),
        ("29x21x21x5", $m!(U29, U21, U21, U5; 29, 21, 21, 5)),
        ("29x22x0x11", $m!(U29, U22, U0, U11; 29, 22, 0, 11)),
        ("29x22x4x2", $m!(U29, U22, U4, U2; 29, 22, 4, 2)),
        ("29x22x22x19", $m!(U29, U22, U22, U19; 29, 22, 22, 19)),
        ("29x23x28x9", $m!(U29, U23, U28, U9; 29, 23, 28, 9)),
        ("29x24x6x20", $m!(U29, U24, U6, U20; 29, 24, 6, 20)),
        ("29x24x15x17", $m!(U29, U24, U15, U17; 29, 24, 15, 17)),
        ("29x25x8x4", $m!(U29, U25, U8, U4; 29, 25, 8, 4)),
        ("29x26x19x17", $m!(U29, U26, U19, U17; 29, 26, 19, 17)),
        ("29x27x10x4", $m!(U29, U27, U10, U4; 29, 27, 10, 4)),
        ("29x28x0x27", $m!(U29, U28, U0, U27; 29, 28, 0, 27)),
        ("29x28x17x13", $m!(U29, U28, U17, U13; 29, 28, 17, 13)),
        ("29x28x25x9", $m!(U29, U28, U25, U9; 29, 28, 25, 9)),
        ("29x28x28x0", $m!(U29, U28, U28, U0; 29, 28, 28, 0)),
        ("29x29x5x2", $m!(U29, U29, U5, U2; 29, 29, 5, 2)),
        ("29x29x13x12", $m!(U29, U29, U13, U12; 29, 29, 13, 12)),
        ("29x30x7x28", $m!(U29, U30, U7, U28; 29, 30, 7, 28)),
        ("29x30x12x23", $m!(U29, U30, U12, U23; 29, 30, 12, 23)),
        ("29x30x24x6", $m!(U29, U30, U24, U6; 29, 30, 24, 6)),
        ("29x31x16x26", $m!(U29, U31, U16, U26; 29, 31, 16, 26)),
        ("29x31x27x22", $m!(U29, U31, U27, U22; 29, 31, 27, 22)),
        ("29x32x14x29", $m!(U29, U32, U14, U29; 29, 32, 14, 29)),
        ("30x1x0x0", $m!(U30, U1, U0, U0; 30, 1, 0, 0)),
        ("30x1x29x0", $m!(U30, U1, U29, U0; 30, 1, 29, 0)),
        ("30x2x0x0", $m!(U30, U2, U0, U0; 30, 2, 0, 0)),
        ("30x2x0x1", $m!(U30, U2, U0, U1; 30, 2, 0, 1)),
        ("30x2x29x0", $m!(U30, U2, U29, U0; 30, 2, 29, 0)),
        ("30x2x29x1", $m!(U30, U2, U29, U1; 30, 2, 29, 1)),
        ("30x3x0x0", $m!(U30, U3, U0, U0; 30, 3, 0, 0)),
        ("30x3x0x2", $m!(U30, U3, U0, U2; 30, 3, 0, 2)),
        ("30x3x29x0", $m!(U30, U3, U29, U0; 30, 3, 29, 0)),
        ("30x3x29x2", $m!(U30, U3, U29, U2; 30, 3, 29, 2)),
        ("30x9x1x1", $m!(U30, U9, U1, U1; 30, 9, 1, 1)),
        ("30x9x11x5", $m!(U30, U9, U11, U5; 30, 9, 11, 5)),
        ("30x15x29x0", $m!(U30, U15, U29, U0; 30, 15, 29, 0)),
        ("30x16x12x4", $m!(U30, U16, U12, U4; 30, 16, 12, 4)),
        ("30x16x17x7", $m!(U30, U16, U17, U7; 30, 16, 17, 7)),
        ("30x17x3x11", $m!(U30, U17, U3, U11; 30, 17, 3, 11)),
        ("30x18x18x0", $m!(U30, U18, U18, U0; 30, 18, 18, 0)),
        ("30x18x23x7", $m!(U30, U18, U23, U7; 30, 18, 23, 7)),
        ("30x19x6x4", $m!(U30, U19, U6, U4; 30, 19, 6, 4)),
        ("30x19x19x14", $m!(U30, U19, U19, U14; 30, 19, 19, 14)),
        ("30x21x4x19", $m!(U30, U21, U4, U19; 30, 21, 4, 19)),
        ("30x21x25x8", $m!(U30, U21, U25, U8; 30, 21, 25, 8)),
        ("30x22x0x0", $m!(U30, U22, U0, U0; 30, 22, 0, 0)),
        ("30x22x0x21", $m!(U30, U22, U0, U21; 30, 22, 0, 21)),
        ("30x22x20x1", $m!(U30, U22, U20, U1; 30, 22, 20, 1)),
        ("30x22x22x7", $m!(U30, U22, U22, U7; 30, 22, 22, 7)),
        ("30x22x29x0", $m!(U30, U22, U29, U0; 30, 22, 29, 0)),
        ("30x22x29x21", $m!(U30, U22, U29, U21; 30, 22, 29, 21)),
        ("30x23x7x0", $m!(U30, U23, U7, U0; 30, 23, 7, 0)),
        ("30x23x8x15", $m!(U30, U23, U8, U15; 30, 23, 8, 15)),
        ("30x23x26x19", $m!(U30, U23, U26, U19; 30, 23, 26, 19)),
        ("30x23x28x1", $m!(U30, U23, U28, U1; 30, 23, 28, 1)),
        ("30x24x0x0", $m!(U30, U24, U0, U0; 30, 24, 0, 0)),
        ("30x24x0x23", $m!(U30, U24, U0, U23; 30, 24, 0, 23)),
        ("30x24x10x18", $m!(U30, U24, U10, U18; 30, 24, 10, 18)),
        ("30x24x29x0", $m!(U30, U24, U29, U0; 30, 24, 29, 0)),
        ("30x24x29x23", $m!(U30, U24, U29, U23; 30, 24, 29, 23)),
        ("30x25x2x11", $m!(U30, U25, U2, U11; 30, 25, 2, 11)),
        ("30x26x0x25", $m!(U30, U26, U0, U25; 30, 26, 0, 25)),
        ("30x26x27x23", $m!(U30, U26, U27, U23; 30, 26, 27, 23)),
        ("30x26x29x0", $m!(U30, U26, U29, U0; 30, 26, 29, 0)),
        ("30x27x5x22", $m!(U30, U27, U5, U22; 30, 27, 5, 22)),
        ("30x27x14x6", $m!(U30, U27, U14, U6; 30, 27, 14, 6)),
        ("30x28x13x21", $m!(U30, U28, U13, U21; 30, 28, 13, 21)),
        ("30x28x24x19", $m!(U30, U28, U24, U19; 30, 28, 24, 19)),
        ("30x29x16x0", $m!(U30, U29, U16, U0; 30, 29, 16, 0)),
        ("30x30x9x18", $m!(U30, U30, U9, U18; 30, 30, 9, 18)),
        ("30x31x0x19", $m!(U30, U31, U0, U19; 30, 31, 0, 19)),
        ("30x31x15x13", $m!(U30, U31, U15, U13; 30, 31, 15, 13)),
        ("30x32x21x0", $m!(U30, U32, U21, U0; 30, 32, 21, 0)),
        ("31x1x0x0", $m!(U31, U1, U0, U0; 31, 1, 0, 0)),
        ("31x1x30x0", $m!(U31, U1, U30, U0; 31, 1, 30, 0)),
        ("31x2x0x0", $m!(U31, U2, U0, U0; 31, 2, 0, 0)),
        ("31x2x0x1", $m!(U31, U2, U0, U1; 31, 2, 0, 1)),
        ("31x2x30x0", $m!(U31, U2, U30, U0; 31, 2, 30, 0)),
        ("31x2x30x1", $m!(U31, U2, U30, U1; 31, 2, 30, 1)),
        ("31x3x0x0", $m!(U31, U3, U0, U0; 31, 3, 0, 0)),
        ("31x3x0x2", $m!(U31, U3, U0, U2; 31, 3, 0, 2)),
        ("31x3x30x0", $m!(U31, U3, U30, U0; 31, 3, 30, 0)),
        ("31x3x30x2", $m!(U31, U3, U30, U2; 31, 3, 30, 2)),
        ("31x7x27x2", $m!(U31, U7, U27, U2; 31, 7, 27, 2)),
        ("31x7x29x4", $m!(U31, U7, U29, U4; 31, 7, 29, 4)),
        ("31x8x3x4", $m!(U31, U8, U3, U4; 31, 8, 3, 4)),
        ("31x10x12x7", $m!(U31, U10, U12, U7; 31, 10, 12, 7)),
        ("31x11x19x5", $m!(U31, U11, U19, U5; 31, 11, 19, 5)),
        ("31x12x0x11", $m!(U31, U12, U0, U11; 31, 12, 0, 11)),
        ("31x12x21x7", $m!(U31, U12, U21, U7; 31, 12, 21, 7)),
        ("31x12x24x2", $m!(U31, U12, U24, U2; 31, 12, 24, 2)),
        ("31x12x30x0", $m!(U31, U12, U30, U0; 31, 12, 30, 0)),
        ("31x15x28x8", $m!(U31, U15, U28, U8; 31, 15, 28, 8)),
        ("31x16x0x0", $m!(U31, U16, U0, U0; 31, 16, 0, 0)),
        ("31x16x0x15", $m!(U31, U16, U0, U15; 31, 16, 0, 15)),
        ("31x16x30x0", $m!(U31, U16, U30, U0; 31, 16, 30, 0)),
        ("31x16x30x15", $m!(U31, U16, U30, U15; 31, 16, 30, 15)),
        ("31x17x23x12", $m!(U31, U17, U23, U12; 31, 17, 23, 12)),
        ("31x18x17x4", $m!(U31, U18, U17, U4; 31, 18, 17, 4)),
        ("31x20x7x0", $m!(U31, U20, U7, U0; 31, 20, 7, 0)),
        ("31x20x30x13", $m!(U31, U20, U30, U13; 31, 20, 30, 13)),
        ("31x21x0x0", $m!(U31, U21, U0, U0; 31, 21, 0, 0)),
        ("31x21x0x20", $m!(U31, U21, U0, U20; 31, 21, 0, 20)),
        ("31x21x22x4", $m!(U31, U21, U22, U4; 31, 21, 22, 4)),
        ("31x21x30x0", $m!(U31, U21, U30, U0; 31, 21, 30, 0)),
        ("31x21x30x20", $m!(U31, U21, U30, U20; 31, 21, 30, 20)),
        ("31x24x2x12", $m!(U31, U24, U2, U12; 31, 24, 2, 12)),
        ("31x24x5x4", $m!(U31, U24, U5, U4; 31, 24, 5, 4)),
        ("31x24x11x21", $m!(U31, U24, U11, U21; 31, 24, 11, 21)),
        ("31x24x16x10", $m!(U31, U24, U16, U10; 31, 24, 16, 10)),
        ("31x24x18x16", $m!(U31, U24, U18, U16; 31, 24, 18, 16)),
        ("31x24x20x0", $m!(U31, U24, U20, U0; 31, 24, 20, 0)),
        ("31x24x26x9", $m!(U31, U24, U26, U9; 31, 24, 26, 9)),
        ("31x25x0x16", $m!(U31, U25, U0, U16; 31, 25, 0, 16)),
        ("31x26x9x2", $m!(U31, U26, U9, U2; 31, 26, 9, 2)),
        ("31x26x14x24", $m!(U31, U26, U14, U24; 31, 26, 14, 24)),
        ("31x27x4x13", $m!(U31, U27, U4, U13; 31, 27, 4, 13)),
        ("31x29x15x11", $m!(U31, U29, U15, U11; 31, 29, 15, 11)),
        ("31x30x25x4", $m!(U31, U30, U25, U4; 31, 30, 25, 4)),
        ("31x31x10x18", $m!(U31, U31, U10, U18; 31, 31, 10, 18)),
        ("31x32x1x12", $m!(U31, U32, U1, U12; 31, 32, 1, 12)),
        ("31x32x6x28", $m!(U31, U32, U6, U28; 31, 32, 6, 28)),
        ("31x32x8x26", $m!(U31, U32, U8, U26; 31, 32, 8, 26)),
        ("31x32x13x15", $m!(U31, U32, U13, U15; 31, 32, 13, 15)),
        ("32x1x0x0", $m!(U32, U1, U0, U0; 32, 1, 0, 0)),
        ("32x1x31x0", $m!(U32, U1, U31, U0; 32, 1, 31, 0)),
        ("32x2x0x0", $m!(U32, U2, U0, U0; 32, 2, 0, 0)),
        ("32x2x0x1", $m!(U32, U2, U0, U1; 32, 2, 0, 1)),
        ("32x2x31x0", $m!(U32, U2, U31, U0; 32, 2, 31, 0)),
        ("32x2x31x1", $m!(U32, U2, U31, U1; 32, 2, 31, 1)),
        ("32x3x0x0", $m!(U32, U3, U0, U0; 32, 3, 0, 0)),
        ("32x3x0x2", $m!(U32, U3, U0, U2; 32, 3, 0, 2)),
        ("32x3x31x0", $m!(U32, U3, U31, U0; 32, 3, 31, 0)),
        ("32x3x31x2", $m!(U32, U3, U31, U2; 32, 3, 31, 2)),
        ("32x8x2x3", $m!(U32, U8, U2, U3; 32, 8, 2, 3)),
        ("32x8x12x2", $m!(U32, U8, U12, U2; 32, 8, 12, 2)),
        ("32x9x21x2", $m!(U32, U9, U21, U2; 32, 9, 21, 2)),
        ("32x10x28x4", $m!(U32, U10, U28, U4; 32, 10, 28, 4)),
        ("32x11x9x8", $m!(U32, U11, U9, U8; 32, 11, 9, 8)),
        ("32x11x24x4", $m!(U32, U11, U24, U4; 32, 11, 24, 4)),
        ("32x12x17x5", $m!(U32, U12, U17, U5; 32, 12, 17, 5)),
        ("32x12x27x8", $m!(U32, U12, U27, U8; 32, 12, 27, 8)),
        ("32x13x20x10", $m!(U32, U13, U20, U10; 32, 13, 20, 10)),
        ("32x14x0x13", $m!(U32, U14, U0, U13; 32, 14, 0, 13)),
        ("32x14x15x1", $m!(U32, U14, U15, U1; 32, 14, 15, 1)),
        ("32x14x26x5", $m!(U32, U14, U26, U5; 32, 14, 26, 5)),
        ("32x14x31x0", $m!(U32, U14, U31, U0; 32, 14, 31, 0)),
        ("32x15x7x9", $m!(U32, U15, U7, U9; 32, 15, 7, 9)),
        ("32x18x30x1", $m!(U32, U18, U30, U1; 32, 18, 30, 1)),
        ("32x20x0x0", $m!(U32, U20, U0, U0; 32, 20, 0, 0)),
        ("32x20x0x19", $m!(U32, U20, U0, U19; 32, 20, 0, 19)),
        ("32x20x31x0", $m!(U32, U20, U31, U0; 32, 20, 31, 0)),
        ("32x20x31x19", $m!(U32, U20, U31, U19; 32, 20, 31, 19)),
        ("32x21x13x7", $m!(U32, U21, U13, U7; 32, 21, 13, 7)),
        ("32x21x22x9", $m!(U32, U21, U22, U9; 32, 21, 22, 9)),
        ("32x22x16x15", $m!(U32, U22, U16, U15; 32, 22, 16, 15)),
        ("32x24x0x23", $m!(U32, U24, U0, U23; 32, 24, 0, 23)),
        ("32x24x1x19", $m!(U32, U24, U1, U19; 32, 24, 1, 19)),
        ("32x24x4x22", $m!(U32, U24, U4, U22; 32, 24, 4, 22)),
        ("32x24x10x13", $m!(U32, U24, U10, U13; 32, 24, 10, 13)),
        ("32x24x14x6", $m!(U32, U24, U14, U6; 32, 24, 14, 6)),
        ("32x25x5x21", $m!(U32, U25, U5, U21; 32, 25, 5, 21)),
        ("32x25x6x22", $m!(U32, U25, U6, U22; 32, 25, 6, 22)),
        ("32x26x31x6", $m!(U32, U26, U31, U6; 32, 26, 31, 6)),
        ("32x27x25x23", $m!(U32, U27, U25, U23; 32, 27, 25, 23)),
        ("32x28x29x26", $m!(U32, U28, U29, U26; 32, 28, 29, 26)),
        ("32x29x11x17", $m!(U32, U29, U11, U17; 32, 29, 11, 17)),
        ("32x29x18x22", $m!(U32, U29, U18, U22; 32, 29, 18, 22)),
        ("32x30x19x9", $m!(U32, U30, U19, U9; 32, 30, 19, 9)),
        ("32x31x8x20", $m!(U32, U31, U8, U20; 32, 31, 8, 20)),
        ("32x32x3x8", $m!(U32, U32, U3, U8; 32, 32, 3, 8)),
        ("32x32x23x23", $m!(U32, U32, U23, U23; 32, 32, 23, 23)),
    ] };
}

/// all lengths
#[macro_export]
macro_rules! dims_n {
    ($f:ident) => { &[
        ("0", $f::<U0> as $crate::runner::UnitFn),
        ("1", $f::<U1> as $crate::runner::UnitFn),
        ("2", $f::<U2> as $crate::runner::UnitFn),
        ("3", $f::<U3> as $crate::runner::UnitFn),
        ("4", $f::<U4> as $crate::runner::UnitFn),
        ("5", $f::<U5> as $crate::runner::UnitFn),
        ("6", $f::<U6> as $crate::runner::UnitFn),
        ("7", $f::<U7> as $crate::runner::UnitFn),
        ("8", $f::<U8> as $crate::runner::UnitFn),
        ("9", $f::<U9> as $crate::runner::UnitFn),
        ("10", $f::<U10> as $crate::runner::UnitFn),
        ("11", $f::<U11> as $crate::runner::UnitFn),
        ("12", $f::<U12> as $crate::runner::UnitFn),
        ("13", $f::<U13> as $crate::runner::UnitFn),
        ("14", $f::<U14> as $crate::runner::UnitFn),
        ("15", $f::<U15> as $crate::runner::UnitFn),
        ("16", $f::<U16> as $crate::runner::UnitFn),
        ("17", $f::<U17> as $crate::runner::UnitFn),
        ("18", $f::<U18> as $crate::runner::UnitFn),
        ("19", $f::<U19> as $crate::runner::UnitFn),
        ("20", $f::<U20> as $crate::runner::UnitFn),
        ("21", $f::<U21> as $crate::runner::UnitFn),
        ("22", $f::<U22> as $crate::runner::UnitFn),
        ("23", $f::<U23> as $crate::runner::UnitFn),
        ("24", $f::<U24> as $crate::runner::UnitFn),
        ("25", $f::<U25> as $crate::runner::UnitFn),
        ("26", $f::<U26> as $crate::runner::UnitFn),
        ("27", $f::<U27> as $crate::runner::UnitFn),
        ("28", $f::<U28> as $crate::runner::UnitFn),
        ("29", $f::<U29> as $crate::runner::UnitFn),
        ("30", $f::<U30> as $crate::runner::UnitFn),
        ("31", $f::<U31> as $crate::runner::UnitFn),
        ("32", $f::<U32> as $crate::runner::UnitFn),
    ] };
    ($f:ident, $e:ty) => { &[
        ("0", $f::<$e, U0> as $crate::runner::UnitFn),
        ("1", $f::<$e, U1> as $crate::runner::UnitFn),
        ("2", $f::<$e, U2> as $crate::runner::UnitFn),
        ("3", $f::<$e, U3> as $crate::runner::UnitFn),
        ("4", $f::<$e, U4> as $crate::runner::UnitFn),
        ("5", $f::<$e, U5> as $crate::runner::UnitFn),
        ("6", $f::<$e, U6> as $crate::runner::UnitFn),
        ("7", $f::<$e, U7> as $crate::runner::UnitFn),
        ("8", $f::<$e, U8> as $crate::runner::UnitFn),
        ("9", $f::<$e, U9> as $crate::runner::UnitFn),
        ("10", $f::<$e, U10> as $crate::runner::UnitFn),
        ("11", $f::<$e, U11> as $crate::runner::UnitFn),
        ("12", $f::<$e, U12> as $crate::runner::UnitFn),
        ("13", $f::<$e, U13> as $crate::runner::UnitFn),
        ("14", $f::<$e, U14> as $crate::runner::UnitFn),
        ("15", $f::<$e, U15> as $crate::runner::UnitFn),
        ("16", $f::<$e, U16> as $crate::runner::UnitFn),
        ("17", $f::<$e, U17> as $crate::runner::UnitFn),
        ("18", $f::<$e, U18> as $crate::runner::UnitFn),
        ("19", $f::<$e, U19> as $crate::runner::UnitFn),
        ("20", $f::<$e, U20> as $crate::runner::UnitFn),
        ("21", $f::<$e, U21> as $crate::runner::UnitFn),
        ("22", $f::<$e, U22> as $crate::runner::UnitFn),
        ("23", $f::<$e, U23> as $crate::runner::UnitFn),
        ("24", $f::<$e, U24> as $crate::runner::UnitFn),
        ("25", $f::<$e, U25> as $crate::runner::UnitFn),
        ("26", $f::<$e, U26> as $crate::runner::UnitFn),
        ("27", $f::<$e, U27> as $crate::runner::UnitFn),
        ("28", $f::<$e, U28> as $crate::runner::UnitFn),
        ("29", $f::<$e, U29> as $crate::runner::UnitFn),
        ("30", $f::<$e, U30> as $crate::runner::UnitFn),
        ("31", $f::<$e, U31> as $crate::runner::UnitFn),
        ("32", $f::<$e, U32> as $crate::runner::UnitFn),
    ] };
}

/// all lengths but 0
#[macro_export]
macro_rules! dims_n1 {
    ($f:ident) => { &[
        ("1", $f::<U1> as $crate::runner::UnitFn),
        ("2", $f::<U2> as $crate::runner::UnitFn),
        ("3", $f::<U3> as $crate::runner::UnitFn),
        ("4", $f::<U4> as $crate::runner::UnitFn),
        ("5", $f::<U5> as $crate::runner::UnitFn),
        ("6", $f::<U6> as $crate::runner::UnitFn),
        ("7", $f::<U7> as $crate::runner::UnitFn),
        ("8", $f::<U8> as $crate::runner::UnitFn),
        ("9", $f::<U9> as $crate::runner::UnitFn),
        ("10", $f::<U10> as $crate::runner::UnitFn),
        ("11", $f::<U11> as $crate::runner::UnitFn),
        ("12", $f::<U12> as $crate::runner::UnitFn),
        ("13", $f::<U13> as $crate::runner::UnitFn),
        ("14", $f::<U14> as $crate::runner::UnitFn),
        ("15", $f::<U15> as $crate::runner::UnitFn),
        ("16", $f::<U16> as $crate::runner::UnitFn),
        ("17", $f::<U17> as $crate::runner::UnitFn),
        ("18", $f::<U18> as $crate::runner::UnitFn),
        ("19", $f::<U19> as $crate::runner::UnitFn),
        ("20", $f::<U20> as $crate::runner::UnitFn),
        ("21", $f::<U21> as $crate::runner::UnitFn),
        ("22", $f::<U22> as $crate::runner::UnitFn),
        ("23", $f::<U23> as $crate::runner::UnitFn),
        ("24", $f::<U24> as $crate::runner::UnitFn),
        ("25", $f::<U25> as $crate::runner::UnitFn),
        ("26", $f::<U26> as $crate::runner::UnitFn),
        ("27", $f::<U27> as $crate::runner::UnitFn),
        ("28", $f::<U28> as $crate::runner::UnitFn),
        ("29", $f::<U29> as $crate::runner::UnitFn),
        ("30", $f::<U30> as $crate::runner::UnitFn),
        ("31", $f::<U31> as $crate::runner::UnitFn),
        ("32", $f::<U32> as $crate::runner::UnitFn),
    ] };
    ($f:ident, $e:ty) => { &[
        ("1", $f::<$e, U1> as $crate::runner::UnitFn),
        ("2", $f::<$e, U2> as $crate::runner::UnitFn),
        ("3", $f::<$e, U3> as $crate::runner::UnitFn),
        ("4", $f::<$e, U4> as $crate::runner::UnitFn),
        ("5", $f::<$e, U5> as $crate::runner::UnitFn),
        ("6", $f::<$e, U6> as $crate::runner::UnitFn),
        ("7", $f::<$e, U7> as $crate::runner::UnitFn),
        ("8", $f::<$e, U8> as $crate::runner::UnitFn),
        ("9", $f::<$e, U9> as $crate::runner::UnitFn),
        ("10", $f::<$e, U10> as $crate::runner::UnitFn),
        ("11", $f::<$e, U11> as $crate::runner::UnitFn),
        ("12", $f::<$e, U12> as $crate::runner::UnitFn),
        ("13", $f::<$e, U13> as $crate::runner::UnitFn),
        ("14", $f::<$e, U14> as $crate::runner::UnitFn),
        ("15", $f::<$e, U15> as $crate::runner::UnitFn),
        ("16", $f::<$e, U16> as $crate::runner::UnitFn),
        ("17", $f::<$e, U17> as $crate::runner::UnitFn),
        ("18", $f::<$e, U18> as $crate::runner::UnitFn),
        ("19", $f::<$e, U19> as $crate::runner::UnitFn),
        ("20", $f::<$e, U20> as $crate::runner::UnitFn),
        ("21", $f::<$e, U21> as $crate::runner::UnitFn),
        ("22", $f::<$e, U22> as $crate::runner::UnitFn),
        ("23", $f::<$e, U23> as $crate::runner::UnitFn),
        ("24", $f::<$e, U24> as $crate::runner::UnitFn),
        ("25", $f::<$e, U25> as $crate::runner::UnitFn),
        ("26", $f::<$e, U26> as $crate::runner::UnitFn),
        ("27", $f::<$e, U27> as $crate::runner::UnitFn),
        ("28", $f::<$e, U28> as $crate::runner::UnitFn),
        ("29", $f::<$e, U29> as $crate::runner::UnitFn),
        ("30", $f::<$e, U30> as $crate::runner::UnitFn),
        ("31", $f::<$e, U31> as $crate::runner::UnitFn),
        ("32", $f::<$e, U32> as $crate::runner::UnitFn),
    ] };
}

/// all lengths from 2
#[macro_export]
macro_rules! dims_n2 {
    ($f:ident) => { &[
        ("2", $f::<U2> as $crate::runner::UnitFn),
        ("3", $f::<U3> as $crate::runner::UnitFn),
        ("4", $f::<U4> as $crate::runner::UnitFn),
        ("5", $f::<U5> as $crate::runner::UnitFn),
        ("6", $f::<U6> as $crate::runner::UnitFn),
        ("7", $f::<U7> as $crate::runner::UnitFn),
        ("8", $f::<U8> as $crate::runner::UnitFn),
        ("9", $f::<U9> as $crate::runner::UnitFn),
        ("10", $f::<U10> as $crate::runner::UnitFn),
        ("11", $f::<U11> as $crate::runner::UnitFn),
        ("12", $f::<U12> as $crate::runner::UnitFn),
        ("13", $f::<U13> as $crate::runner::UnitFn),
        ("14", $f::<U14> as $crate::runner::UnitFn),
        ("15", $f::<U15> as $crate::runner::UnitFn),
        ("16", $f::<U16> as $crate::runner::UnitFn),
        ("17", $f::<U17> as $crate::runner::UnitFn),
        ("18", $f::<U18> as $crate::runner::UnitFn),
        ("19", $f::<U19> as $crate::runner::UnitFn),
        ("20", $f::<U20> as $crate::runner::UnitFn),
        ("21", $f::<U21> as $crate::runner::UnitFn),
        ("22", $f::<U22> as $crate::runner::UnitFn),
        ("23", $f::<U23> as $crate::runner::UnitFn),
        ("24", $f::<U24> as $crate::runner::UnitFn),
        ("25", $f::<U25> as $crate::runner::UnitFn),
        ("26", $f::<U26> as $crate::runner::UnitFn),
        ("27", $f::<U27> as $crate::runner::UnitFn),
        ("28", $f::<U28> as $crate::runner::UnitFn),
        ("29", $f::<U29> as $crate::runner::UnitFn),
        ("30", $f::<U30> as $crate::runner::UnitFn),
        ("31", $f::<U31> as $crate::runner::UnitFn),
        ("32", $f::<U32> as $crate::runner::UnitFn),
    ] };
    ($f:ident, $e:ty) => { &[
        ("2", $f::<$e, U2> as $crate::runner::UnitFn),
        ("3", $f::<$e, U3> as $crate::runner::UnitFn),
        ("4", $f::<$e, U4> as $crate::runner::UnitFn),
        ("5", $f::<$e, U5> as $crate::runner::UnitFn),
        ("6", $f::<$e, U6> as $crate::runner::UnitFn),
        ("7", $f::<$e, U7> as $crate::runner::UnitFn),
        ("8", $f::<$e, U8> as $crate::runner::UnitFn),
        ("9", $f::<$e, U9> as $crate::runner::UnitFn),
        ("10", $f::<$e, U10> as $crate::runner::UnitFn),
        ("11", $f::<$e, U11> as $crate::runner::UnitFn),
        ("12", $f::<$e, U12> as $crate::runner::UnitFn),
        ("13", $f::<$e, U13> as $crate::runner::UnitFn),
        ("14", $f::<$e, U14> as $crate::runner::UnitFn),
        ("15", $f::<$e, U15> as $crate::runner::UnitFn),
        ("16", $f::<$e, U16> as $crate::runner::UnitFn),
        ("17", $f::<$e, U17> as $crate::runner::UnitFn),
        ("18", $f::<$e, U18> as $crate::runner::UnitFn),
        ("19", $f::<$e, U19> as $crate::runner::UnitFn),
        ("20", $f::<$e, U20> as $crate::runner::UnitFn),
        ("21", $f::<$e, U21> as $crate::runner::UnitFn),
        ("22", $f::<$e, U22> as $crate::runner::UnitFn),
        ("23", $f::<$e, U23> as $crate::runner::UnitFn),
        ("24", $f::<$e, U24> as $crate::runner::UnitFn),
        ("25", $f::<$e, U25> as $crate::runner::UnitFn),
        ("26", $f::<$e, U26> as $crate::runner::UnitFn),
        ("27", $f::<$e, U27> as $crate::runner::UnitFn),
        ("28", $f::<$e, U28> as $crate::runner::UnitFn),
        ("29", $f::<$e, U29> as $crate::runner::UnitFn),
        ("30", $f::<$e, U30> as $crate::runner::UnitFn),
        ("31", $f::<$e, U31> as $crate::runner::UnitFn),
        ("32", $f::<$e, U32> as $crate::runner::UnitFn),
    ] };
}

/// all shapes
#[macro_export]
macro_rules! dims_pairs {
    ($f:ident) => { &[
        ("0x0", $f::<U0, U0> as $crate::runner::UnitFn),
        ("0x1", $f::<U0, U1> as $crate::runner::UnitFn),
        ("0x2", $f::<U0, U2> as $crate::runner::UnitFn),
        ("0x3", $f::<U0, U3> as $crate::runner::UnitFn),
        ("0x4", $f::<U0, U4> as $crate::runner::UnitFn),
        ("0x5", $f::<U0, U5> as $crate::runner::UnitFn),
        ("0x6", $f::<U0, U6> as $crate::runner::UnitFn),
        ("0x7", $f::<U0, U7> as $crate::runner::UnitFn),
        ("0x8", $f::<U0, U8> as $crate::runner::UnitFn),
        ("0x9", $f::<U0, U9> as $crate::runner::UnitFn),
        ("0x10", $f::<U0, U10> as $crate::runner::UnitFn),
        ("0x11", $f::<U0, U11> as $crate::runner::UnitFn),
        ("0x12", $f::<U0, U12> as $crate::runner::UnitFn),
        ("0x13", $f::<U0, U13> as $crate::runner::UnitFn),
        ("0x14", $f::<U0, U14> as $crate::runner::UnitFn),
        ("0x15", $f::<U0, U15> as $crate::runner::UnitFn),
        ("0x16", $f::<U0, U16> as $crate::runner::UnitFn),
        ("0x17", $f::<U0, U17> as $crate::runner::UnitFn),
        ("0x18", $f::<U0, U18> as $crate::runner::UnitFn),
        ("0x19", $f::<U0, U19> as $crate::runner::UnitFn),
        ("0x20", $f::<U0, U20> as $crate::runner::UnitFn),
        ("0x21", $f::<U0, U21> as $crate::runner::UnitFn),
        ("0x22", $f::<U0, U22> as $crate::runner::UnitFn),
        ("0x23", $f::<U0, U23> as $crate::runner::UnitFn),
        ("0x24", $f::<U0, U24> as $crate::runner::UnitFn),
        ("0x25", $f::<U0, U25> as $crate::runner::UnitFn),
        ("0x26", $f::<U0, U26> as $crate::runner::UnitFn),
        ("0x27", $f::<U0, U27> as $crate::runner::UnitFn),
        ("0x28", $f::<U0, U28> as $crate::runner::UnitFn),
        ("0x29", $f::<U0, U29> as $crate::runner::UnitFn),
        ("0x30", $f::<U0, U30> as $crate::runner::UnitFn),
        ("0x31", $f::<U0, U31> as $crate::runner::UnitFn),
        ("0x32", $f::<U0, U32> as $crate::runner::UnitFn),
        ("1x0", $f::<U1, U0> as $crate::runner::UnitFn),
        ("1x1", $f::<U1, U1> as $crate::runner::UnitFn),
        ("1x2", $f::<U1, U2> as $crate::runner::UnitFn),
        ("1x3", $f::<U1, U3> as $crate::runner::UnitFn),
        ("1x4", $f::<U1, U4> as $crate::runner::UnitFn),
        ("1x5", $f::<U1, U5> as $crate::runner::UnitFn),
        ("1x6", $f::<U1, U6> as $crate::runner::UnitFn),
        ("1x7", $f::<U1, U7> as $crate::runner::UnitFn),
        ("1x8", $f::<U1, U8> as $crate::runner::UnitFn),
        ("1x9", $f::<U1, U9> as $crate::runner::UnitFn),
        ("1x10", $f::<U1, U10> as $crate::runner::UnitFn),
        ("1x11", $f::<U1, U11> as $crate::runner::UnitFn),
        ("1x12", $f::<U1, U12> as $crate::runner::UnitFn),
        ("1x13", $f::<U1, U13> as $crate::runner::UnitFn),
        ("1x14", $f::<U1, U14> as $crate::runner::UnitFn),
        ("1x15", $f::<U1, U15> as $crate::runner::UnitFn),
        ("1x16", $f::<U1, U16> as $crate::runner::UnitFn),
        ("1x17", $f::<U1, U17> as $crate::runner::UnitFn),
        ("1x18", $f::<U1, U18> as $crate::runner::UnitFn),
        ("1x19", $f::<U1, U19> as $crate::runner::UnitFn),
        ("1x20", $f::<U1, U20> as $crate::runner::UnitFn),
        ("1x21", $f::<U1, U21> as $crate::runner::UnitFn),
        ("1x22", $f::<U1, U22> as $crate::runner::UnitFn),
        ("1x23", $f::<U1, U23> as $crate::runner::UnitFn),
        ("1x24", $f::<U1, U24> as $crate::runner::UnitFn),
        ("1x25", $f::<U1, U25> as $crate::runner::UnitFn),
        ("1x26", $f::<U1, U26> as $crate::runner::UnitFn),
        ("1x27", $f::<U1, U27> as $crate::runner::UnitFn),
        ("1x28", $f::<U1, U28> as $crate::runner::UnitFn),
        ("1x29", $f::<U1, U29> as $crate::runner::UnitFn),
        ("1x30", $f::<U1, U30> as $crate::runner::UnitFn),
        ("1x31", $f::<U1, U31> as $crate::runner::UnitFn),
        ("1x32", $f::<U1, U32> as $crate::runner::UnitFn),
        ("2x0", $f::<U2, U0> as $crate::runner::UnitFn),
        ("2x1", $f::<U2, U1> as $crate::runner::UnitFn),
        ("2x2", $f::<U2, U2> as $crate::runner::UnitFn),
        ("2x3", $f::<U2, U3> as $crate::runner::UnitFn),
        ("2x4", $f::<U2, U4> as $crate::runner::UnitFn),
        ("2x5", $f::<U2, U5> as $crate::runner::UnitFn),
        ("2x6", $f::<U2, U6> as $crate::runner::UnitFn),
        ("2x7", $f::<U2, U7> as $crate::runner::UnitFn),
        ("2x8", $f::<U2, U8> as $crate::runner::UnitFn),
        ("2x9", $f::<U2, U9> as $crate::runner::UnitFn),
        ("2x10", $f::<U2, U10> as $crate::runner::UnitFn),
        ("2x11", $f::<U2, U11> as $crate::runner::UnitFn),
        ("2x12", $f::<U2, U12> as $crate::runner::UnitFn),
        ("2x13", $f::<U2, U13> as $crate::runner::UnitFn),
        ("2x14", $f::<U2, U14> as $crate::runner::UnitFn),
        ("2x15", $f::<U2, U15> as $crate::runner::UnitFn),
        ("2x16", $f::<U2, U16> as $crate::runner::UnitFn),
        ("2x17", $f::<U2, U17> as $crate::runner::UnitFn),
        ("2x18", $f::<U2, U18> as $crate::runner::UnitFn),
        ("2x19", $f::<U2, U19> as $crate::runner::UnitFn),
        ("2x20", $f::<U2, U20> as $crate::runner::UnitFn),
        ("2x21", $f::<U2, U21> as $crate::runner::UnitFn),
        ("2x22", $f::<U2, U22> as $crate::runner::UnitFn),
        ("2x23", $f::<U2, U23> as $crate::runner::UnitFn),
        ("2x24", $f::<U2, U24> as $crate::runner::UnitFn),
        ("2x25", $f::<U2, U25> as $crate::runner::UnitFn),
        ("2x26", $f::<U2, U26> as $crate::runner::UnitFn),
        ("2x27", $f::<U2, U27> as $crate::runner::UnitFn),
        ("2x28", $f::<U2, U28> as $crate::runner::UnitFn),
        ("2x29", $f::<U2, U29> as $crate::runner::UnitFn),
        ("2x30", $f::<U2, U30> as $crate::runner::UnitFn),
        ("2x31", $f::<U2, U31> as $crate::runner::UnitFn),
        ("2x32", $f::<U2, U32> as $crate::runner::UnitFn),
        ("3x0", $f::<U3, U0> as $crate::runner::UnitFn),
        ("3x1", $f::<U3, U1> as $crate::runner::UnitFn),
        ("3x2", $f::<U3, U2> as $crate::runner::UnitFn),
        ("3x3", $f::<U3, U3> as $crate::runner::UnitFn),
        ("3x4", $f::<U3, U4> as $crate::runner::UnitFn),
        ("3x5", $f::<U3, U5> as $crate::runner::UnitFn),
        ("3x6", $f::<U3, U6> as $crate::runner::UnitFn),
        ("3x7", $f::<U3, U7> as $crate::runner::UnitFn),
        ("3x8", $f::<U3, U8> as $crate::runner::UnitFn),
        ("3x9", $f::<U3, U9> as $crate::runner::UnitFn),
        ("3x10", $f::<U3, U10> as $crate::runner::UnitFn),
        ("3x11", $f::<U3, U11> as $crate::runner::UnitFn),
        ("3x12", $f::<U3, U12> as $crate::runner::UnitFn),
        ("3x13", $f::<U3, U13> as $crate::runner::UnitFn),
        ("3x14", $f::<U3, U14> as $crate::runner::UnitFn),
        ("3x15", $f::<U3, U15> as $crate::runner::UnitFn),
        ("3x16", $f::<U3, U16> as $crate::runner::UnitFn),
        ("3x17", $f::<U3, U17> as $crate::runner::UnitFn),
        ("3x18", $f::<U3, U18> as $crate::runner::UnitFn),
        ("3x19", $f::<U3, U19> as $crate::runner::UnitFn),
        ("3x20", $f::<U3, U20> as $crate::runner::UnitFn),
        ("3x21", $f::<U3, U21> as $crate::runner::UnitFn),
        ("3x22", $f::<U3, U22> as $crate::runner::UnitFn),
        ("3x23", $f::<U3, U23> as $crate::runner::UnitFn),
        ("3x24", $f::<U3, U24> as $crate::runner::UnitFn),
        ("3x25", $f::<U3, U25> as $crate::runner::UnitFn),
        ("3x26", $f::<U3, U26> as $crate::runner::UnitFn),
        ("3x27", $f::<U3, U27> as $crate::runner::UnitFn),
        ("3x28", $f::<U3, U28> as $crate::runner::UnitFn),
        ("3x29", $f::<U3, U29> as $crate::runner::UnitFn),
        ("3x30", $f::<U3, U30> as $crate::runner::UnitFn),
        ("3x31", $f::<U3, U31> as $crate::runner::UnitFn),
        ("3x32", $f::<U3, U32> as $crate::runner::UnitFn),
        ("4x0", $f::<U4, U0> as $crate::runner::UnitFn),
        ("4x1", $f::<U4, U1> as $crate::runner::UnitFn),
        ("4x2", $f::<U4, U2> as $crate::runner::UnitFn),
        ("4x3", $f::<U4, U3> as $crate::runner::UnitFn),
        ("4x4", $f::<U4, U4> as $crate::runner::UnitFn),
        ("4x5", $f::<U4, U5> as $crate::runner::UnitFn),
        ("4x6", $f::<U4, U6> as $crate::runner::UnitFn),
        ("4x7", $f::<U4, U7> as $crate::runner::UnitFn),
        ("4x8", $f::<U4, U8> as $crate::runner::UnitFn),
        ("4x9", $f::<U4, U9> as $crate::runner::UnitFn),
        ("4x10", $f::<U4, U10> as $crate::runner::UnitFn),
        ("4x11", $f::<U4, U11> as $crate::runner::UnitFn),
        ("4x12", $f::<U4, U12> as $crate::runner::UnitFn),
        ("4x13", $f::<U4, U13> as $crate::runner::UnitFn),
        ("4x14", $f::<U4, U14> as $crate::runner::UnitFn),
        ("4x15", $f::<U4, U15> as $crate::runner::UnitFn),
        ("4x16", $f::<U4, U16> as $crate::runner::UnitFn),
        ("4x17", $f::<U4, U17> as $crate::runner::UnitFn),
        ("4x18", $f::<U4, U18> as $crate::runner::UnitFn),
        ("4x19", $f::<U4, U19> as $crate::runner::UnitFn),
        ("4x20", $f::<U4, U20> as $crate::runner::UnitFn),
        ("4x21", $f::<U4, U21> as $crate::runner::UnitFn),
        ("4x22", $f::<U4, U22> as $crate::runner::UnitFn),
        ("4x23", $f::<U4, U23> as $crate::runner::UnitFn),
        ("4x24", $f::<U4, U24> as $crate::runner::UnitFn),
        ("4x25", $f::<U4, U25> as $crate::runner::UnitFn),
        ("4x26", $f::<U4, U26> as $crate::runner::UnitFn),
        ("4x27", $f::<U4, U27> as $crate::runner::UnitFn),
        ("4x28", $f::<U4, U28> as $crate::runner::UnitFn),
        ("4x29", $f::<U4, U29> as $crate::runner::UnitFn),
        ("4x30", $f::<U4, U30> as $crate::runner::UnitFn),
        ("4x31", $f::<U4, U31> as $crate::runner::UnitFn),
        ("4x32", $f::<U4, U32> as $crate::runner::UnitFn),
        ("5x0", $f::<U5, U0> as $crate::runner::UnitFn),
        ("5x1", $f::<U5, U1> as $crate::runner::UnitFn),
        ("5x2", $f::<U5, U2> as $crate::runner::UnitFn),
        ("5x3", $f::<U5, U3> as $crate::runner::UnitFn),
        ("5x4", $f::<U5, U4> as $crate::runner::UnitFn),
        ("5x5", $f::<U5, U5> as $crate::runner::UnitFn),
        ("5x6", $f::<U5, U6> as $crate::runner::UnitFn),
        ("5x7", $f::<U5, U7> as $crate::runner::UnitFn),
        ("5x8", $f::<U5, U8> as $crate::runner::UnitFn),
        ("5x9", $f::<U5, U9> as $crate::runner::UnitFn),
        ("5x10", $f::<U5, U10> as $crate::runner::UnitFn),
        ("5x11", $f::<U5, U11> as $crate::runner::UnitFn),
        ("5x12", $f::<U5, U12> as $crate::runner::UnitFn),
        ("5x13", $f::<U5, U13> as $crate::runner::UnitFn),
        ("5x14", $f::<U5, U14> as $crate::runner::UnitFn),
        ("5x15", $f::<U5, U15> as $crate::runner::UnitFn),
        ("5x16", $f::<U5, U16> as $crate::runner::UnitFn),
        ("5x17", $f::<U5, U17> as $crate::runner::UnitFn),
        ("5x18", $f::<U5, U18> as $crate::runner::UnitFn),
        ("5x19", $f::<U5, U19> as $crate::runner::UnitFn),
        ("5x20", $f::<U5, U20> as $crate::runner::UnitFn),
        ("5x21", $f::<U5, U21> as $crate::runner::UnitFn),
        ("5x22", $f::<U5, U22> as $crate::runner::UnitFn),
        ("5x23", $f::<U5, U23> as $crate::runner::UnitFn),
        ("5x24", $f::<U5, U24> as $crate::runner::UnitFn),
        ("5x25", $f::<U5, U25> as $crate::runner::UnitFn),
        ("5x26", $f::<U5, U26> as $crate::runner::UnitFn),
        ("5x27", $f::<U5, U27> as $crate::runner::UnitFn),
        ("5x28", $f::<U5, U28> as $crate::runner::UnitFn),
        ("5x29", $f::<U5, U29> as $crate::runner::UnitFn),
        ("5x30", $f::<U5, U30> as $crate::runner::UnitFn),
        ("5x31", $f::<U5, U31> as $crate::runner::UnitFn),
        ("5x32", $f::<U5, U32> as $crate::runner::UnitFn),
        ("6x0", $f::<U6, U0> as $crate::runner::UnitFn),
        ("6x1", $f::<U6, U1> as $crate::runner::UnitFn),
        ("6x2", $f::<U6, U2> as $crate::runner::UnitFn),
        ("6x3", $f::<U6, U3> as $crate::runner::UnitFn),
        ("6x4", $f::<U6, U4> as $crate::runner::UnitFn),
        ("6x5", $f::<U6, U5> as $crate::runner::UnitFn),
        ("6x6", $f::<U6, U6> as $crate::runner::UnitFn),
        ("6x7", $f::<U6, U7> as $crate::runner::UnitFn),
        ("6x8", $f::<U6, U8> as $crate::runner::UnitFn),
        ("6x9", $f::<U6, U9> as $crate::runner::UnitFn),
        ("6x10", $f::<U6, U10> as $crate::runner::UnitFn),
        ("6x11", $f::<U6, U11> as $crate::runner::UnitFn),
        ("6x12", $f::<U6, U12> as $crate::runner::UnitFn),
        ("6x13", $f::<U6, U13> as $crate::runner::UnitFn),
        ("6x14", $f::<U6, U14> as $crate::runner::UnitFn),
        ("6x15", $f::<U6, U15> as $crate::runner::UnitFn),
        ("6x16", $f::<U6, U16> as $crate::runner::UnitFn),
        ("6x17", $f::<U6, U17> as $crate::runner::UnitFn),
        ("6x18", $f::<U6, U18> as $crate::runner::UnitFn),
        ("6x19", $f::<U6, U19> as $crate::runner::UnitFn),
        ("6x20", $f::<U6, U20> as $crate::runner::UnitFn),
        ("6x21", $f::<U6, U21> as $crate::runner::UnitFn),
        ("6x22", $f::<U6, U22> as $crate::runner::UnitFn),
        ("6x23", $f::<U6, U23> as $crate::runner::UnitFn),
        ("6x24", $f::<U6, U24> as $crate::runner::UnitFn),
        ("6x25", $f::<U6, U25> as $crate::runner::UnitFn),
        ("6x26", $f::<U6, U26> as $crate::runner::UnitFn),
        ("6x27", $f::<U6, U27> as $crate::runner::UnitFn),
        ("6x28", $f::<U6, U28> as $crate::runner::UnitFn),
        ("6x29", $f::<U6, U29> as $crate::runner::UnitFn),
        ("6x30", $f::<U6, U30> as $crate::runner::UnitFn),
        ("6x31", $f::<U6, U31> as $crate::runner::UnitFn),
        ("6x32", $f::<U6, U32> as $crate::runner::UnitFn),
        ("7x0", $f::<U7, U0> as $crate::runner::UnitFn),
        ("7x1", $f::<U7, U1> as $crate::runner::UnitFn),
        ("7x2", $f::<U7, U2> as $crate::runner::UnitFn),
        ("7x3", $f::<U7, U3> as $crate::runner::UnitFn),
        ("7x4", $f::<U7, U4> as $crate::runner::UnitFn),
        ("7x5", $f::<U7, U5> as $crate::runner::UnitFn),
        ("7x6", $f::<U7, U6> as $crate::runner::UnitFn),
        ("7x7", $f::<U7, U7> as $crate::runner::UnitFn),
        ("7x8", $f::<U7, U8> as $crate::runner::UnitFn),
        ("7x9", $f::<U7, U9> as $crate::runner::UnitFn),
        ("7x10", $f::<U7, U10> as $crate::runner::UnitFn),
        ("7x11", $f::<U7, U11> as $crate::runner::UnitFn),
        ("7x12", $f::<U7, U12> as $crate::runner::UnitFn),
        ("7x13", $f::<U7, U13> as $crate::runner::UnitFn),
        ("7x14", $f::<U7, U14> as $crate::runner::UnitFn),
        ("7x15", $f::<U7, U15> as $crate::runner::UnitFn),
        ("7x16", $f::<U7, U16> as $crate::runner::UnitFn),
        ("7x17", $f::<U7, U17> as $crate::runner::UnitFn),
        ("7x18", $f::<U7, U18> as $crate::runner::UnitFn),
        ("7x19", $f::<U7, U19> as $crate::runner::UnitFn),
        ("7x20", $f::<U7, U20> as $crate::runner::UnitFn),
        ("7x21", $f::<U7, U21> as $crate::runner::UnitFn),
        ("7x22", $f::<U7, U22> as $crate::runner::UnitFn),
        ("7x23", $f::<U7, U23> as $crate::runner::UnitFn),
        ("7x24", $f::<U7, U24> as $crate::runner::UnitFn),
        ("7x25", $f::<U7, U25> as $crate::runner::UnitFn),
        ("7x26", $f::<U7, U26> as $crate::runner::UnitFn),
        ("7x27", $f::<U7, U27> as $crate::runner::UnitFn),
        ("7x28", $f::<U7, U28> as $crate::runner::UnitFn),
        ("7x29", $f::<U7, U29> as $crate::runner::UnitFn),
        ("7x30", $f::<U7, U30> as $crate::runner::UnitFn),
        ("7x31", $f::<U7, U31> as $crate::runner::UnitFn),
        ("7x32", $f::<U7, U32> as $crate::runner::UnitFn),
        ("8x0", $f::<U8, U0> as $crate::runner::UnitFn),
        ("8x1", $f::<U8, U1> as $crate::runner::UnitFn),
        ("8x2", $f::<U8, U2> as $crate::runner::UnitFn),
        ("8x3", $f::<U8, U3> as $crate::runner::UnitFn),
        ("8x4", $f::<U8, U4> as $crate::runner::UnitFn),
        ("8x5", $f::<U8, U5> as $crate::runner::UnitFn),
        ("8x6", $f::<U8, U6> as $crate::runner::UnitFn),
        ("8x7", $f::<U8, U7> as $crate::runner::UnitFn),
        ("8x8", $f::<U8, U8> as $crate::runner::UnitFn),
        ("8x9", $f::<U8, U9> as $crate::runner::UnitFn),
        ("8x10", $f::<U8, U10> as $crate::runner::UnitFn),
        ("8x11", $f::<U8, U11> as $crate::runner::UnitFn),
        ("8x12", $f::<U8, U12> as $crate::runner::UnitFn),
        ("8x13", $f::<U8, U13> as $crate::runner::UnitFn),
        ("8x14", $f::<U8, U14> as $crate::runner::UnitFn),
        ("8x15", $f::<U8, U15> as $crate::runner::UnitFn),
        ("8x16", $f::<U8, U16> as $crate::runner::UnitFn),
        ("8x17", $f::<U8, U17> as $crate::runner::UnitFn),
        ("8x18", $f::<U8, U18> as $crate::runner::UnitFn),
        ("8x19", $f::<U8, U19> as $crate::runner::UnitFn),
        ("8x20", $f::<U8, U20> as $crate::runner::UnitFn),
        ("8x21", $f::<U8, U21> as $crate::runner::UnitFn),
        ("8x22", $f::<U8, U22> as $crate::runner::UnitFn),
        ("8x23", $f::<U8, U23> as $crate::runner::UnitFn),
        ("8x24", $f::<U8, U24> as $crate::runner::UnitFn),
        ("8x25", $f::<U8, U25> as $crate::runner::UnitFn),
        ("8x26", $f::<U8, U26> as $crate::runner::UnitFn),
        ("8x27", $f::<U8, U27> as $crate::runner::UnitFn),
        ("8x28", $f::<U8, U28> as $crate::runner::UnitFn),
        ("8x29", $f::<U8, U29> as $crate::runner::UnitFn),
        ("8x30", $f::<U8, U30> as $crate::runner::UnitFn),
        ("8x31", $f::<U8, U31> as $crate::runner::UnitFn),
        ("8x32", $f::<U8, U32> as $crate::runner::UnitFn),
        ("9x0", $f::<U9, U0> as $crate::runner::UnitFn),
        ("9x1", $f::<U9, U1> as $crate::runner::UnitFn),
        ("9x2", $f::<U9, U2> as $crate::runner::UnitFn),
        ("9x3", $f::<U9, U3> as $crate::runner::UnitFn),
        ("9x4", $f::<U9, U4> as $crate::runner::UnitFn),
        ("9x5", $f::<U9, U5> as $crate::runner::UnitFn),
        ("9x6", $f::<U9, U6> as $crate::runner::UnitFn),
        ("9x7", $f::<U9, U7> as $crate::runner::UnitFn),
        ("9x8", $f::<U9, U8> as $crate::runner::UnitFn),
        ("9x9", $f::<U9, U9> as $crate::runner::UnitFn),
        ("9x10", $f::<U9, U10> as $crate::runner::UnitFn),
        ("9x11", $f::<U9, U11> as $crate::runner::UnitFn),
        ("9x12", $f::<U9, U12> as $crate::runner::UnitFn),
        ("9x13", $f::<U9, U13> as $crate::runner::UnitFn),
        ("9x14", $f::<U9, U14> as $crate::runner::UnitFn),
        ("9x15", $f::<U9, U15> as $crate::runner::UnitFn),
        ("9x16", $f::<U9, U16> as $crate::runner::UnitFn),
        ("9x17", $f::<U9, U17> as $crate::runner::UnitFn),
        ("9x18", $f::<U9, U18> as $crate::runner::UnitFn),
        ("9x19", $f::<U9, U19> as $crate::runner::UnitFn),
        ("9x20", $f::<U9, U20> as $crate::runner::UnitFn),
        ("9x21", $f::<U9, U21> as $crate::runner::UnitFn),
        ("9x22", $f::<U9, U22> as $crate::runner::UnitFn),
        ("9x23", $f::<U9, U23> as $crate::runner::UnitFn),
        ("9x24", $f::<U9, U24> as $crate::runner::UnitFn),
        ("9x25", $f::<U9, U25> as $crate::runner::UnitFn),
        ("9x26", $f::<U9, U26> as $crate::runner::UnitFn),
        ("9x27", $f::<U9, U27> as $crate::runner::UnitFn),
        ("9x28", $f::<U9, U28> as $crate::runner::UnitFn),
        ("9x29", $f::<U9, U29> as $crate::runner::UnitFn),
        ("9x30", $f::<U9, U30> as $crate::runner::UnitFn),
        ("9x31", $f::<U9, U31> as $crate::runner::UnitFn),
        ("9x32", $f::<U9, U32> as $crate::runner::UnitFn),
        ("10x0", $f::<U10, U0> as $crate::runner::UnitFn),
        ("10x1", $f::<U10, U1> as $crate::runner::UnitFn),
        ("10x2", $f::<U10, U2> as $crate::runner::UnitFn),
        ("10x3", $f::<U10, U3> as $crate::runner::UnitFn),
        ("10x4", $f::<U10, U4> as $crate::runner::UnitFn),
        ("10x5", $f::<U10, U5> as $crate::runner::UnitFn),
        ("10x6", $f::<U10, U6> as $crate::runner::UnitFn),
        ("10x7", $f::<U10, U7> as $crate::runner::UnitFn),
        ("10x8", $f::<U10, U8> as $crate::runner::UnitFn),
        ("10x9", $f::<U10, U9> as $crate::runner::UnitFn),
        ("10x10", $f::<U10, U10> as $crate::runner::UnitFn),
        ("10x11", $f::<U10, U11> as $crate::runner::UnitFn),
        ("10x12", $f::<U10, U12> as $crate::runner::UnitFn),
        ("10x13", $f::<U10, U13> as $crate::runner::UnitFn),
        ("10x14", $f::<U10, U14> as $crate::runner::UnitFn),
        ("10x15", $f::<U10, U15> as $crate::runner::UnitFn),
        ("10x16", $f::<U10, U16> as $crate::runner::UnitFn),
        ("10x17", $f::<U10, U17> as $crate::runner::UnitFn),
        ("10x18", $f::<U10, U18> as $crate::runner::UnitFn),
        ("10x19", $f::<U10, U19> as $crate::runner::UnitFn),
        ("10x20", $f::<U10, U20> as $crate::runner::UnitFn),
        ("10x21", $f::<U10, U21> as $crate::runner::UnitFn),
        ("10x22", $f::<U10, U22> as $crate::runner::UnitFn),
        ("10x23", $f::<U10, U23> as $crate::runner::UnitFn),
        ("10x24", $f::<U10, U24> as $crate::runner::UnitFn),
        ("10x25", $f::<U10, U25> as $crate::runner::UnitFn),
        ("10x26", $f::<U10, U26> as $crate::runner::UnitFn),
        ("10x27", $f::<U10, U27> as $crate::runner::UnitFn),
        ("10x28", $f::<U10, U28> as $crate::runner::UnitFn),
        ("10x29", $f::<U10, U29> as $crate::runner::UnitFn),
        ("10x30", $f::<U10, U30> as $crate::runner::UnitFn),
        ("10x31", $f::<U10, U31> as $crate::runner::UnitFn),
        ("10x32", $f::<U10, U32> as $crate::runner::UnitFn),
        ("11x0", $f::<U11, U0> as $crate::runner::UnitFn),
        ("11x1", $f::<U11, U1> as $crate::runner::UnitFn),
        ("11x2", $f::<U11, U2> as $crate::runner::UnitFn),
        ("11x3", $f::<U11, U3> as $crate::runner::UnitFn),
        ("11x4", $f::<U11, U4> as $crate::runner::UnitFn),
        ("11x5", $f::<U11, U5> as $crate::runner::UnitFn),
        ("11x6", $f::<U11, U6> as $crate::runner::UnitFn),
        ("11x7", $f::<U11, U7> as $crate::runner::UnitFn),
        ("11x8", $f::<U11, U8> as $crate::runner::UnitFn),
        ("11x9", $f::<U11, U9> as $crate::runner::UnitFn),
        ("11x10", $f::<U11, U10> as $crate::runner::UnitFn),
        ("11x11", $f::<U11, U11> as $crate::runner::UnitFn),
        ("11x12", $f::<U11, U12> as $crate::runner::UnitFn),
        ("11x13", $f::<U11, U13> as $crate::runner::UnitFn),
        ("11x14", $f::<U11, U14> as $crate::runner::UnitFn),
        ("11x15", $f::<U11, U15> as $crate::runner::UnitFn),
        ("11x16", $f::<U11, U16> as $crate::runner::UnitFn),
        ("11x17", $f::<U11, U17> as $crate::runner::UnitFn),
        ("11x18", $f::<U11, U18> as $crate::runner::UnitFn),
        ("11x19", $f::<U11, U19> as $crate::runner::UnitFn),
        ("11x20", $f::<U11, U20> as $crate::runner::UnitFn),
        ("11x21", $f::<U11, U21> as $crate::runner::UnitFn),
        ("11x22", $f::<U11, U22> as $crate::runner::UnitFn),
        ("11x23", $f::<U11, U23> as $crate::runner::UnitFn),
        ("11x24", $f::<U11, U24> as $crate::runner::UnitFn),
        ("11x25", $f::<U11, U25> as $crate::runner::UnitFn),
        ("11x26", $f::<U11, U26> as $crate::runner::UnitFn),
        ("11x27", $f::<U11, U27> as $crate::runner::UnitFn),
        ("11x28", $f::<U11, U28> as $crate::runner::UnitFn),
        ("11x29", $f::<U11, U29> as $crate::runner::UnitFn),
        ("11x30", $f::<U11, U30> as $crate::runner::UnitFn),
        ("11x31", $f::<U11, U31> as $crate::runner::UnitFn),
        ("11x32", $f::<U11, U32> as $crate::runner::UnitFn),
        ("12x0", $f::<U12, U0> as $crate::runner::UnitFn),
        ("12x1", $f::<U12, U1> as $crate::runner::UnitFn),
        ("12x2", $f::<U12, U2> as $crate::runner::UnitFn),
        ("12x3", $f::<U12, U3> as $crate::runner::UnitFn),
        ("12x4", $f::<U12, U4> as $crate::runner::UnitFn),
        ("12x5", $f::<U12, U5> as $crate::runner::UnitFn),
        ("12x6", $f::<U12, U6> as $crate::runner::UnitFn),
        ("12x7", $f::<U12, U7> as $crate::runner::UnitFn),
        ("12x8", $f::<U12, U8> as $crate::runner::UnitFn),
        ("12x9", $f::<U12, U9> as $crate::runner::UnitFn),
        ("12x10", $f::<U12, U10> as $crate::runner::UnitFn),
        ("12x11", $f::<U12, U11> as $crate::runner::UnitFn),
        ("12x12", $f::<U12, U12> as $crate::runner::UnitFn),
        ("12x13", $f::<U12, U13> as $crate::runner::UnitFn),
        ("12x14", $f::<U12, U14> as $crate::runner::UnitFn),
        ("12x15", $f::<U12, U15> as $crate::runner::UnitFn),
        ("12x16", $f::<U12, U16> as $crate::runner::UnitFn),
        ("12x17", $f::<U12, U17> as $crate::runner::UnitFn),
        ("12x18", $f::<U12, U18> as $crate::runner::UnitFn),
        ("12x19", $f::<U12, U19> as $crate::runner::UnitFn),
        ("12x20", $f::<U12, U20> as $crate::runner::UnitFn),
        ("12x21", $f::<U12, U21> as $crate::runner::UnitFn),
        ("12x22", $f::<U12, U22> as $crate::runner::UnitFn),
        ("12x23", $f::<U12, U23> as $crate::runner::UnitFn),
        ("12x24", $f::<U12, U24> as $crate::runner::UnitFn),
        ("12x25", $f::<U12, U25> as $crate::runner::UnitFn),
        ("12x26", $f::<U12, U26> as $crate::runner::UnitFn),
        ("12x27", $f::<U12, U27> as $crate::runner::UnitFn),
        ("12x28", $f::<U12, U28> as $crate::runner::UnitFn),
        ("12x29", $f::<U12, U29> as $crate::runner::UnitFn),
        ("12x30", $f::<U12, U30> as $crate::runner::UnitFn),
        ("12x31", $f::<U12, U31> as $crate::runner::UnitFn),
        ("12x32", $f::<U12, U32> as $crate::runner::UnitFn),
        ("13x0", $f::<U13, U0> as $crate::runner::UnitFn),
        ("13x1", $f::<U13, U1> as $crate::runner::UnitFn),
        ("13x2", $f::<U13, U2> as $crate::runner::UnitFn),
        ("13x3", $f::<U13, U3> as $crate::runner::UnitFn),
        ("13x4", $f::<U13, U4> as $crate::runner::UnitFn),
        ("13x5", $f::<U13, U5> as $crate::runner::UnitFn),
        ("13x6", $f::<U13, U6> as $crate::runner::UnitFn),
        ("13x7", $f::<U13, U7> as $crate::runner::UnitFn),
        ("13x8", $f::<U13, U8> as $crate::runner::UnitFn),
        ("13x9", $f::<U13, U9> as $crate::runner::UnitFn),
        ("13x10", $f::<U13, U10> as $crate::runner::UnitFn),
        ("13x11", $f::<U13, U11> as $crate::runner::UnitFn),
        ("13x12", $f::<U13, U12> as $crate::runner::UnitFn),
        ("13x13", $f::<U13, U13> as $crate::runner::UnitFn),
        ("13x14", $f::<U13, U14> as $crate::runner::UnitFn),
        ("13x15", $f::<U13, U15> as $crate::runner::UnitFn),
        ("13x16", $f::<U13, U16> as $crate::runner::UnitFn),
        ("13x17", $f::<U13, U17> as $crate::runner::UnitFn),
        ("13x18", $f::<U13, U18> as $crate::runner::UnitFn),
        ("13x19", $f::<U13, U19> as $crate::runner::UnitFn),
        ("13x20", $f::<U13, U20> as $crate::runner::UnitFn),
        ("13x21", $f::<U13, U21> as $crate::runner::UnitFn),
        ("13x22", $f::<U13, U22> as $crate::runner::UnitFn),
        ("13x23", $f::<U13, U23> as $crate::runner::UnitFn),
        ("13x24", $f::<U13, U24> as $crate::runner::UnitFn),
        ("13x25", $f::<U13, U25> as $crate::runner::UnitFn),
        ("13x26", $f::<U13, U26> as $crate::runner::UnitFn),
        ("13x27", $f::<U13, U27> as $crate::runner::UnitFn),
        ("13x28", $f::<U13, U28> as $crate::runner::UnitFn),
        ("13x29", $f::<U13, U29> as $crate::runner::UnitFn),
        ("13x30", $f::<U13, U30> as $crate::runner::UnitFn),
        ("13x31", $f::<U13, U31> as $crate::runner::UnitFn),
        ("13x32", $f::<U13, U32> as $crate::runner::UnitFn),
        ("14x0", $f::<U14, U0> as $crate::runner::UnitFn),
        ("14x1", $f::<U14, U1> as $crate::runner::UnitFn),
        ("14x2", $f::<U14, U2> as $crate::runner::UnitFn),
        ("14x3", $f::<U14, U3> as $crate::runner::UnitFn),
        ("14x4", $f::<U14, U4> as $crate::runner::UnitFn),
        ("14x5", $f::<U14, U5> as $crate::runner::UnitFn),
        ("14x6", $f::<U14, U6> as $crate::runner::UnitFn),
        ("14x7", $f::<U14, U7> as $crate::runner::UnitFn),
        ("14x8", $f::<U14, U8> as $crate::runner::UnitFn),
        ("14x9", $f::<U14, U9> as $crate::runner::UnitFn),
        ("14x10", $f::<U14, U10> as $crate::runner::UnitFn),
        ("14x11", $f::<U14, U11> as $crate::runner::UnitFn),
        ("14x12", $f::<U14, U12> as $crate::runner::UnitFn),
        ("14x13", $f::<U14, U13> as $crate::runner::UnitFn),
        ("14x14", $f::<U14, U14> as $crate::runner::UnitFn),
        ("14x15", $f::<U14, U15> as $crate::runner::UnitFn),
        ("14x16", $f::<U14, U16> as $crate::runner::UnitFn),
        ("14x17", $f::<U14, U17> as $crate::runner::UnitFn),
        ("14x18", $f::<U14, U18> as $crate::runner::UnitFn),
        ("14x19", $f::<U14, U19> as $crate::runner::UnitFn),
        ("14x20", $f::<U14, U20> as $crate::runner::UnitFn),
        ("14x21", $f::<U14, U21> as $crate::runner::UnitFn),
        ("14x22", $f::<U14, U22> as $crate::runner::UnitFn),
        ("14x23", $f::<U14, U23> as $crate::runner::UnitFn),
        ("14x24", $f::<U14, U24> as $crate::runner::UnitFn),
        ("14x25", $f::<U14, U25> as $crate::runner::UnitFn),
        ("14x26", $f::<U14, U26> as $crate::runner::UnitFn),
        ("14x27", $f::<U14, U27> as $crate::runner::UnitFn),
        ("14x28", $f::<U14, U28> as $crate::runner::UnitFn),
        ("14x29", $f::<U14, U29> as $crate::runner::UnitFn),
        ("14x30", $f::<U14, U30> as $crate::runner::UnitFn),
        ("14x31", $f::<U14, U31> as $crate::runner::UnitFn),
        ("14x32", $f::<U14, U32> as $crate::runner::UnitFn),
        ("15x0", $f::<U15, U0> as $crate::runner::UnitFn),
        ("15x1", $f::<U15, U1> as $crate::runner::UnitFn),
        ("15x2", $f::<U15, U2> as $crate::runner::UnitFn),
        ("15x3", $f::<U15, U3> as $crate::runner::UnitFn),
        ("15x4", $f::<U15, U4> as $crate::runner::UnitFn),
        ("15x5", $f::<U15, U5> as $crate::runner::UnitFn),
        ("15x6", $f::<U15, U6> as $crate::runner::UnitFn),
        ("15x7", $f::<U15, U7> as $crate::runner::UnitFn),
        ("15x8", $f::<U15, U8> as $crate::runner::UnitFn),
        ("15x9", $f::<U15, U9> as $crate::runner::UnitFn),
        ("15x10", $f::<U15, U10> as $crate::runner::UnitFn),
        ("15x11", $f::<U15, U11> as $crate::runner::UnitFn),
        ("15x12", $f::<U15, U12> as $crate::runner::UnitFn),
        ("15x13", $f::<U15, U13> as $crate::runner::UnitFn),
        ("15x14", $f::<U15, U14> as $crate::runner::UnitFn),
        ("15x15", $f::<U15, U15> as $crate::runner::UnitFn),
        ("15x16", $f::<U15, U16> as $crate::runner::UnitFn),
        ("15x17", $f::<U15, U17> as $crate::runner::UnitFn),
        ("15x18", $f::<U15, U18> as $crate::runner::UnitFn),
        ("15x19", $f::<U15, U19> as $crate::runner::UnitFn),
        ("15x20", $f::<U15, U20> as $crate::runner::UnitFn),
        ("15x21", $f::<U15, U21> as $crate::runner::UnitFn),
        ("15x22", $f::<U15, U22> as $crate::runner::UnitFn),
        ("15x23", $f::<U15, U23> as $crate::runner::UnitFn),
        ("15x24", $f::<U15, U24> as $crate::runner::UnitFn),
        ("15x25", $f::<U15, U25> as $crate::runner::UnitFn),
        ("15x26", $f::<U15, U26> as $crate::runner::UnitFn),
        ("15x27", $f::<U15, U27> as $crate::runner::UnitFn),
        ("15x28", $f::<U15, U28> as $crate::runner::UnitFn),
        ("15x29", $f::<U15, U29> as $crate::runner::UnitFn),
        ("15x30", $f::<U15, U30> as $crate::runner::UnitFn),
        ("15x31", $f::<U15, U31> as $crate::runner::UnitFn),
        ("15x32", $f::<U15, U32> as $crate::runner::UnitFn),
        ("16x0", $f::<U16, U0> as $crate::runner::UnitFn),
        ("16x1", $f::<U16, U1> as $crate::runner::UnitFn),
        ("16x2", $f::<U16, U2> as $crate::runner::UnitFn),
        ("16x3", $f::<U16, U3> as $crate::runner::UnitFn),
        ("16x4", $f::<U16, U4> as $crate::runner::UnitFn),
        ("16x5", $f::<U16, U5> as $crate::runner::UnitFn),
        ("16x6", $f::<U16, U6> as $crate::runner::UnitFn),
        ("16x7", $f::<U16, U7> as $crate::runner::UnitFn),
        ("16x8", $f::<U16, U8> as $crate::runner::UnitFn),
        ("16x9", $f::<U16, U9> as $crate::runner::UnitFn),
        ("16x10", $f::<U16, U10> as $crate::runner::UnitFn),
        ("16x11", $f::<U16, U11> as $crate::runner::UnitFn),
        ("16x12", $f::<U16, U12> as $crate::runner::UnitFn),
        ("16x13", $f::<U16, U13> as $crate::runner::UnitFn),
        ("16x14", $f::<U16, U14> as $crate::runner::UnitFn),
        ("16x15", $f::<U16, U15> as $crate::runner::UnitFn),
        ("16x16", $f::<U16, U16> as $crate::runner::UnitFn),
        ("16x17", $f::<U16, U17> as $crate::runner::UnitFn),
        ("16x18", $f::<U16, U18> as $crate::runner::UnitFn),
        ("16x19", $f::<U16, U19> as $crate::runner::UnitFn),
        ("16x20", $f::<U16, U20> as $crate::runner::UnitFn),
        ("16x21", $f::<U16, U21> as $crate::runner::UnitFn),
        ("16x22", $f::<U16, U22> as $crate::runner::UnitFn),
        ("16x23", $f::<U16, U23> as $crate::runner::UnitFn),
        ("16x24", $f::<U16, U24> as $crate::runner::UnitFn),
        ("16x25", $f::<U16, U25> as $crate::runner::UnitFn),
        ("16x26", $f::<U16, U26> as $crate::runner::UnitFn),
        ("16x27", $f::<U16, U27> as $crate::runner::UnitFn),
        ("16x28", $f::<U16, U28> as $crate::runner::UnitFn),
        ("16x29", $f::<U16, U29> as $crate::runner::UnitFn),
        ("16x30", $f::<U16, U30> as $crate::runner::UnitFn),
        ("16x31", $f::<U16, U31> as $crate::runner::UnitFn),
        ("16x32", $f::<U16, U32> as $crate::runner::UnitFn),
        ("17x0", $f::<U17, U0> as $crate::runner::UnitFn),
        ("17x1", $f::<U17, U1> as $crate::runner::UnitFn),
        ("17x2", $f::<U17, U2> as $crate::runner::UnitFn),
        ("17x3", $f::<U17, U3> as $crate::runner::UnitFn),
        ("17x4", $f::<U17, U4> as $crate::runner::UnitFn),
        ("17x5", $f::<U17, U5> as $crate::runner::UnitFn),
        ("17x6", $f::<U17, U6> as $crate::runner::UnitFn),
        ("17x7", $f::<U17, U7> as $crate::runner::UnitFn),
        ("17x8", $f::<U17, U8> as $crate::runner::UnitFn),
        ("17x9", $f::<U17, U9> as $crate::runner::UnitFn),
        ("17x10", $f::<U17, U10> as $crate::runner::UnitFn),
        ("17x11", $f::<U17, U11> as $crate::runner::UnitFn),
        ("17x12", $f::<U17, U12> as $crate::runner::UnitFn),
        ("17x13", $f::<U17, U13> as $crate::runner::UnitFn),
        ("17x14", $f::<U17, U14> as $crate::runner::UnitFn),
        ("17x15", $f::<U17, U15> as $crate::runner::UnitFn),
        ("17x16", $f::<U17, U16> as $crate::runner::UnitFn),
        ("17x17", $f::<U17, U17> as $crate::runner::UnitFn),
        ("17x18", $f::<U17, U18> as $crate::runner::UnitFn),
        ("17x19", $f::<U17, U19> as $crate::runner::UnitFn),
        ("17x20", $f::<U17, U20> as $crate::runner::UnitFn),
        ("17x21", $f::<U17, U21> as $crate::runner::UnitFn),
        ("17x22", $f::<U17, U22> as $crate::runner::UnitFn),
        ("17x23", $f::<U17, U23> as $crate::runner::UnitFn),
        ("17x24", $f::<U17, U24> as $crate::runner::UnitFn),
        ("17x25", $f::<U17, U25> as $crate::runner::UnitFn),
        ("17x26", $f::<U17, U26> as $crate::runner::UnitFn),
        ("17x27", $f::<U17, U27> as $crate::runner::UnitFn),
        ("17x28", $f::<U17, U28> as $crate::runner::UnitFn),
        ("17x29", $f::<U17, U29> as $crate::runner::UnitFn),
        ("17x30", $f::<U17, U30> as $crate::runner::UnitFn),
        ("17x31", $f::<U17, U31> as $crate::runner::UnitFn),
        ("17x32", $f::<U17, U32> as $crate::runner::UnitFn),
        ("18x0", $f::<U18, U0> as $crate::runner::UnitFn),
        ("18x1", $f::<U18, U1> as $crate::runner::UnitFn),
        ("18x2", $f::<U18, U2> as $crate::runner::UnitFn),
        ("18x3", $f::<U18, U3> as $crate::runner::UnitFn),
        ("18x4", $f::<U18, U4> as $crate::runner::UnitFn),
        ("18x5", $f::<U18, U5> as $crate::runner::UnitFn),
        ("18x6", $f::<U18, U6> as $crate::runner::UnitFn),
        ("18x7", $f::<U18, U7> as $crate::runner::UnitFn),
        ("18x8", $f::<U18, U8> as $crate::runner::UnitFn),
        ("18x9", $f::<U18, U9> as $crate::runner::UnitFn),
        ("18x10", $f::<U18, U10> as $crate::runner::UnitFn),
        ("18x11", $f::<U18, U11> as $crate::runner::UnitFn),
        ("18x12", $f::<U18, U12> as $crate::runner::UnitFn),
        ("18x13", $f::<U18, U13> as $crate::runner::UnitFn),
        ("18x14", $f::<U18, U14> as $crate::runner::UnitFn),
        ("18x15", $f::<U18, U15> as $crate::runner::UnitFn),
        ("18x16", $f::<U18, U16> as $crate::runner::UnitFn),
        ("18x17", $f::<U18, U17> as $crate::runner::UnitFn),
        ("18x18", $f::<U18, U18> as $crate::runner::UnitFn),
        ("18x19", $f::<U18, U19> as $crate::runner::UnitFn),
        ("18x20", $f::<U18, U20> as $crate::runner::UnitFn),
        ("18x21", $f::<U18, U21> as $crate::runner::UnitFn),
        ("18x22", $f::<U18, U22> as $crate::runner::UnitFn),
        ("18x23", $f::<U18, U23> as $crate::runner::UnitFn),
        ("18x24", $f::<U18, U24> as $crate::runner::UnitFn),
        ("18x25", $f::<U18, U25> as $crate::runner::UnitFn),
        ("18x26", $f::<U18, U26> as $crate::runner::UnitFn),
        ("18x27", $f::<U18, U27> as $crate::runner::UnitFn),
        ("18x28", $f::<U18, U28> as $crate::runner::UnitFn),
        ("18x29", $f::<U18, U29> as $crate::runner::UnitFn),
        ("18x30", $f::<U18, U30> as $crate::runner::UnitFn),
        ("18x31", $f::<U18, U31> as $crate::runner::UnitFn),
        ("18x32", $f::<U18, U32> as $crate::runner::UnitFn),
        ("19x0", $f::<U19, U0> as $crate::runner::UnitFn),
        ("19x1", $f::<U19, U1> as $crate::runner::UnitFn),
        ("19x2", $f::<U19, U2> as $crate::runner::UnitFn),
        ("19x3", $f::<U19, U3> as $crate::runner::UnitFn),
        ("19x4", $f::<U19, U4> as $crate::runner::UnitFn),
        ("19x5", $f::<U19, U5> as $crate::runner::UnitFn),
        ("19x6", $f::<U19, U6> as $crate::runner::UnitFn),
        ("19x7", $f::<U19, U7> as $crate::runner::UnitFn),
        ("19x8", $f::<U19, U8> as $crate::runner::UnitFn),
        ("19x9", $f::<U19, U9> as $crate::runner::UnitFn),
        ("19x10", $f::<U19, U10> as $crate::runner::UnitFn),
        ("19x11", $f::<U19, U11> as $crate::runner::UnitFn),
        ("19x12", $f::<U19, U12> as $crate::runner::UnitFn),
        ("19x13", $f::<U19, U13> as $crate::runner::UnitFn),
        ("19x14", $f::<U19, U14> as $crate::runner::UnitFn),
        ("19x15", $f::<U19, U15> as $crate::runner::UnitFn),
        ("19x16", $f::<U19, U16> as $crate::runner::UnitFn),
        ("19x17", $f::<U19, U17> as $crate::runner::UnitFn),
        ("19x18", $f::<U19, U18> as $crate::runner::UnitFn),
        ("19x19", $f::<U19, U19> as $crate::runner::UnitFn),
        ("19x20", $f::<U19, U20> as $crate::runner::UnitFn),
        ("19x21", $f::<U19, U21> as $crate::runner::UnitFn),
        ("19x22", $f::<U19, U22> as $crate::runner::UnitFn),
        ("19x23", $f::<U19, U23> as $crate::runner::UnitFn),
        ("19x24", $f::<U19, U24> as $crate::runner::UnitFn),
        ("19x25", $f::<U19, U25> as $crate::runner::UnitFn),
        ("19x26", $f::<U19, U26> as $crate::runner::UnitFn),
        ("19x27", $f::<U19, U27> as $crate::runner::UnitFn),
        ("19x28", $f::<U19, U28> as $crate::runner::UnitFn),
        ("19x29", $f::<U19, U29> as $crate::runner::UnitFn),
        ("19x30", $f::<U19, U30> as $crate::runner::UnitFn),
        ("19x31", $f::<U19, U31> as $crate::runner::UnitFn),
        ("19x32", $f::<U19, U32> as $crate::runner::UnitFn),
        ("20x0", $f::<U20, U0> as $crate::runner::UnitFn),
        ("20x1", $f::<U20, U1> as $crate::runner::UnitFn),
        ("20x2", $f::<U20, U2> as $crate::runner::UnitFn),
        ("20x3", $f::<U20, U3> as $crate::runner::UnitFn),
        ("20x4", $f::<U20, U4> as $crate::runner::UnitFn),
        ("20x5", $f::<U20, U5> as $crate::runner::UnitFn),
        ("20x6", $f::<U20, U6> as $crate::runner::UnitFn),
        ("20x7", $f::<U20, U7> as $crate::runner::UnitFn),
        ("20x8", $f::<U20, U8> as $crate::runner::UnitFn),
        ("20x9", $f::<U20, U9> as $crate::runner::UnitFn),
        ("20x10", $f::<U20, U10> as $crate::runner::UnitFn),
        ("20x11", $f::<U20, U11> as $crate::runner::UnitFn),
        ("20x12", $f::<U20, U12> as $crate::runner::UnitFn),
        ("20x13", $f::<U20, U13> as $crate::runner::UnitFn),
        ("20x14", $f::<U20, U14> as $crate::runner::UnitFn),
        ("20x15", $f::<U20, U15> as $crate::runner::UnitFn),
        ("20x16", $f::<U20, U16> as $crate::runner::UnitFn),
        ("20x17", $f::<U20, U17> as $crate::runner::UnitFn),
        ("20x18", $f::<U20, U18> as $crate::runner::UnitFn),
        ("20x19", $f::<U20, U19> as $crate::runner::UnitFn),
        ("20x20", $f::<U20, U20> as $crate::runner::UnitFn),
        ("20x21", $f::<U20, U21> as $crate::runner::UnitFn),
        ("20x22", $f::<U20, U22> as $crate::runner::UnitFn),
        ("20x23", $f::<U20, U23> as $crate::runner::UnitFn),
        ("20x24", $f::<U20, U24> as $crate::runner::UnitFn),
        ("20x25", $f::<U20, U25> as $crate::runner::UnitFn),
        ("20x26", $f::<U20, U26> as $crate::runner::UnitFn),
        ("20x27", $f::<U20, U27> as $crate::runner::UnitFn),
        ("20x28", $f::<U20, U28> as $crate::runner::UnitFn),
        ("20x29", $f::<U20, U29> as $crate::runner::UnitFn),
        ("20x30", $f::<U20, U30> as $crate::runner::UnitFn),
        ("20x31", $f::<U20, U31> as $crate::runner::UnitFn),
        ("20x32", $f::<U20, U32> as $crate::runner::UnitFn),
        ("21x0", $f::<U21, U0> as $crate::runner::UnitFn),
        ("21x1", $f::<U21, U1> as $crate::runner::UnitFn),
        ("21x2", $f::<U21, U2> as $crate::runner::UnitFn),
        ("21x3", $f::<U21, U3> as $crate::runner::UnitFn),
        ("21x4", $f::<U21, U4> as $crate::runner::UnitFn),
        ("21x5", $f::<U21, U5> as $crate::runner::UnitFn),
        ("21x6", $f::<U21, U6> as $crate::runner::UnitFn),
        ("21x7", $f::<U21, U7> as $crate::runner::UnitFn),
        ("21x8", $f::<U21, U8> as $crate::runner::UnitFn),
        ("21x9", $f::<U21, U9> as $crate::runner::UnitFn),
        ("21x10", $f::<U21, U10> as $crate::runner::UnitFn),
        ("21x11", $f::<U21, U11> as $crate::runner::UnitFn),
        ("21x12", $f::<U21, U12> as $crate::runner::UnitFn),
        ("21x13", $f::<U21, U13> as $crate::runner::UnitFn),
        ("21x14", $f::<U21, U14> as $crate::runner::UnitFn),
        ("21x15", $f::<U21, U15> as $crate::runner::UnitFn),
        ("21x16", $f::<U21, U16> as $crate::runner::UnitFn),
        ("21x17", $f::<U21, U17> as $crate::runner::UnitFn),
        ("21x18", $f::<U21, U18> as $crate::runner::UnitFn),
        ("21x19", $f::<U21, U19> as $crate::runner::UnitFn),
        ("21x20", $f::<U21, U20> as $crate::runner::UnitFn),
        ("21x21", $f::<U21, U21> as $crate::runner::UnitFn),
        ("21x22", $f::<U21, U22> as $crate::runner::UnitFn),
        ("21x23", $f::<U21, U23> as $crate::runner::UnitFn),
        ("21x24", $f::<U21, U24> as $crate::runner::UnitFn),
        ("21x25", $f::<U21, U25> as $crate::runner::UnitFn),
        ("21x26", $f::<U21, U26> as $crate::runner::UnitFn),
        ("21x27", $f::<U21, U27> as $crate::runner::UnitFn),
        ("21x28", $f::<U21, U28> as $crate::runner::UnitFn),
        ("21x29", $f::<U21, U29> as $crate::runner::UnitFn),
        ("21x30", $f::<U21, U30> as $crate::runner::UnitFn),
        ("21x31", $f::<U21, U31> as $crate::runner::UnitFn),
        ("21x32", $f::<U21, U32> as $crate::runner::UnitFn),
        ("22x0", $f::<U22, U0> as $crate::runner::UnitFn),
        ("22x1", $f::<U22, U1> as $crate::runner::UnitFn),
        ("22x2", $f::<U22, U2> as $crate::runner::UnitFn),
        ("22x3", $f::<U22, U3> as $crate::runner::UnitFn),
        ("22x4", $f::<U22, U4> as $crate::runner::UnitFn),
        ("22x5", $f::<U22, U5> as $crate::runner::UnitFn),
        ("22x6", $f::<U22, U6> as $crate::runner::UnitFn),
        ("22x7", $f::<U22, U7> as $crate::runner::UnitFn),
        ("22x8", $f::<U22, U8> as $crate::runner::UnitFn),
        ("22x9", $f::<U22, U9> as $crate::runner::UnitFn),
        ("22x10", $f::<U22, U10> as $crate::runner::UnitFn),
        ("22x11", $f::<U22, U11> as $crate::runner::UnitFn),
        ("22x12", $f::<U22, U12> as $crate::runner::UnitFn),
        ("22x13", $f::<U22, U13> as $crate::runner::UnitFn),
        ("22x14", $f::<U22, U14> as $crate::runner::UnitFn),
        ("22x15", $f::<U22, U15> as $crate::runner::UnitFn),
        ("22x16", $f::<U22, U16> as $crate::runner::UnitFn),
        ("22x17", $f::<U22, U17> as $crate::runner::UnitFn),
        ("22x18", $f::<U22, U18> as $crate::runner::UnitFn),
        ("22x19", $f::<U22, U19> as $crate::runner::UnitFn),
        ("22x20", $f::<U22, U20> as $crate::runner::UnitFn),
        ("22x21", $f::<U22, U21> as $crate::runner::UnitFn),
        ("22x22", $f::<U22, U22> as $crate::runner::UnitFn),
        ("22x23", $f::<U22, U23> as $crate::runner::UnitFn),
        ("22x24", $f::<U22, U24> as $crate::runner::UnitFn),
        ("22x25", $f::<U22, U25> as $crate::runner::UnitFn),
        ("22x26", $f::<U22, U26> as $crate::runner::UnitFn),
        ("22x27", $f::<U22, U27> as $crate::runner::UnitFn),
        ("22x28", $f::<U22, U28> as $crate::runner::UnitFn),
        ("22x29", $f::<U22, U29> as $crate::runner::UnitFn),
        ("22x30", $f::<U22, U30> as $crate::runner::UnitFn),
        ("22x31", $f::<U22, U31> as $crate::runner::UnitFn),
        ("22x32", $f::<U22, U32> as $crate::runner::UnitFn),
        ("23x0", $f::<U23, U0> as $crate::runner::UnitFn),
        ("23x1", $f::<U23, U1> as $crate::runner::UnitFn),
        ("23x2", $f::<U23, U2> as $crate::runner::UnitFn),
        ("23x3", $f::<U23, U3> as $crate::runner::UnitFn),
        ("23x4", $f::<U23, U4> as $crate::runner::UnitFn),
        ("23x5", $f::<U23, U5> as $crate::runner::UnitFn),
        ("23x6", $f::<U23, U6> as $crate::runner::UnitFn),
        ("23x7", $f::<U23, U7> as $crate::runner::UnitFn),
        ("23x8", $f::<U23, U8> as $crate::runner::UnitFn),
        ("23x9", $f::<U23, U9> as $crate::runner::UnitFn),
        ("23x10", $f::<U23, U10> as $crate::runner::UnitFn),
        ("23x11", $f::<U23, U11> as $crate::runner::UnitFn),
        ("23x12", $f::<U23, U12> as $crate::runner::UnitFn),
        ("23x13", $f::<U23, U13> as $crate::runner::UnitFn),
        ("23x14", $f::<U23, U14> as $crate::runner::UnitFn),
        ("23x15", $f::<U23, U15> as $crate::runner::UnitFn),
        ("23x16", $f::<U23, U16> as $crate::runner::UnitFn),
        ("23x17", $f::<U23, U17> as $crate::runner::UnitFn),
        ("23x18", $f::<U23, U18> as $crate::runner::UnitFn),
        ("23x19", $f::<U23, U19> as $crate::runner::UnitFn),
        ("23x20", $f::<U23, U20> as $crate::runner::UnitFn),
        ("23x21", $f::<U23, U21> as $crate::runner::UnitFn),
        ("23x22", $f::<U23, U22> as $crate::runner::UnitFn),
        ("23x23", $f::<U23, U23> as $crate::runner::UnitFn),
        ("23x24", $f::<U23, U24> as $crate::runner::UnitFn),
        ("23x25", $f::<U23, U25> as $crate::runner::UnitFn),
        ("23x26", $f::<U23, U26> as $crate::runner::UnitFn),
        ("23x27", $f::<U23, U27> as $crate::runner::UnitFn),
        ("23x28", $f::<U23, U28> as $crate::runner::UnitFn),
        ("23x29", $f::<U23, U29> as $crate::runner::UnitFn),
        ("23x30", $f::<U23, U30> as $crate::runner::UnitFn),
        ("23x31", $f::<U23, U31> as $crate::runner::UnitFn),
        ("23x32", $f::<U23, U32> as $crate::runner::UnitFn),
        ("24x0", $f::<U24, U0> as $crate::runner::UnitFn),
        ("24x1", $f::<U24, U1> as $crate::runner::UnitFn),
        ("24x2", $f::<U24, U2> as $crate::runner::UnitFn),
        ("24x3", $f::<U24, U3> as $crate::runner::UnitFn),
        ("24x4", $f::<U24, U4> as $crate::runner::UnitFn),
        ("24x5", $f::<U24, U5> as $crate::runner::UnitFn),
        ("24x6", $f::<U24, U6> as $crate::runner::UnitFn),
        ("24x7", $f::<U24, U7> as $crate::runner::UnitFn),
        ("24x8", $f::<U24, U8> as $crate::runner::UnitFn),
        ("24x9", $f::<U24, U9> as $crate::runner::UnitFn),
        ("24x10", $f::<U24, U10> as $crate::runner::UnitFn),
        ("24x11", $f::<U24, U11> as $crate::runner::UnitFn),
        ("24x12", $f::<U24, U12> as $crate::runner::UnitFn),
        ("24x13", $f::<U24, U13> as $crate::runner::UnitFn),
        ("24x14", $f::<U24, U14> as $crate::runner::UnitFn),
        ("24x15", $f::<U24, U15> as $crate::runner::UnitFn),
        ("24x16", $f::<U24, U16> as $crate::runner::UnitFn),
        ("24x17", $f::<U24, U17> as $crate::runner::UnitFn),
        ("24x18", $f::<U24, U18> as $crate::runner::UnitFn),
        ("24x19", $f::<U24, U19> as $crate::runner::UnitFn),
        ("24x20", $f::<U24, U20> as $crate::runner::UnitFn),
        ("24x21", $f::<U24, U21> as $crate::runner::UnitFn),
        ("24x22", $f::<U24, U22> as $crate::runner::UnitFn),
        ("24x23", $f::<U24, U23> as $crate::runner::UnitFn),
        ("24x24", $f::<U24, U24> as $crate::runner::UnitFn),
        ("24x25", $f::<U24, U25> as $crate::runner::UnitFn),
        ("24x26", $f::<U24, U26> as $crate::runner::UnitFn),
        ("24x27", $f::<U24, U27> as $crate::runner::UnitFn),
        ("24x28", $f::<U24, U28> as $crate::runner::UnitFn),
        ("24x29", $f::<U24, U29> as $crate::runner::UnitFn),
        ("24x30", $f::<U24, U30> as $crate::runner::UnitFn),
        ("24x31", $f::<U24, U31> as $crate::runner::UnitFn),
        ("24x32", $f::<U24, U32> as $crate::runner::UnitFn),
        ("25x0", $f::<U25, U0> as $crate::runner::UnitFn),
        ("25x1", $f::<U25, U1> as $crate::runner::UnitFn),
        ("25x2", $f::<U25, U2> as $crate::runner::UnitFn),
        ("25x3", $f::<U25, U3> as $crate::runner::UnitFn),
        ("25x4", $f::<U25, U4> as $crate::runner::UnitFn),
        ("25x5", $f::<U25, U5> as $crate::runner::UnitFn),
        ("25x6", $f::<U25, U6> as $crate::runner::UnitFn),
        ("25x7", $f::<U25, U7> as $crate::runner::UnitFn),
        ("25x8", $f::<U25, U8> as $crate::runner::UnitFn),
        ("25x9", $f::<U25, U9> as $crate::runner::UnitFn),
        ("25x10", $f::<U25, U10> as $crate::runner::UnitFn),
        ("25x11", $f::<U25, U11> as $crate::runner::UnitFn),
        ("25x12", $f::<U25, U12> as $crate::runner::UnitFn),
        ("25x13", $f::<U25, U13> as $crate::runner::UnitFn),
        ("25x14", $f::<U25, U14> as $crate::runner::UnitFn),
        ("25x15", $f::<U25, U15> as $crate::runner::UnitFn),
        ("25x16", $f::<U25, U16> as $crate::runner::UnitFn),
        ("25x17", $f::<U25, U17> as $crate::runner::UnitFn),
        ("25x18", $f::<U25, U18> as $crate::runner::UnitFn),
        ("25x19", $f::<U25, U19> as $crate::runner::UnitFn),
        ("25x20", $f::<U25, U20> as $crate::runner::UnitFn),
        ("25x21", $f::<U25, U21> as $crate::runner::UnitFn),
        ("25x22", $f::<U25, U22> as $crate::runner::UnitFn),
        ("25x23", $f::<U25, U23> as $crate::runner::UnitFn),
        ("25x24", $f::<U25, U24> as $crate::runner::UnitFn),
        ("25x25", $f::<U25, U25> as $crate::runner::UnitFn),
        ("25x26", $f::<U25, U26> as $crate::runner::UnitFn),
        ("25x27", $f::<U25, U27> as $crate::runner::UnitFn),
        ("25x28", $f::<U25, U28> as $crate::runner::UnitFn),
        ("25x29", $f::<U25, U29> as $crate::runner::UnitFn),
        ("25x30", $f::<U25, U30> as $crate::runner::UnitFn),
        ("25x31", $f::<U25, U31> as $crate::runner::UnitFn),
        ("25x32", $f::<U25, U32> as $crate::runner::UnitFn),
        ("26x0", $f::<U26, U0> as $crate::runner::UnitFn),
        ("26x1", $f::<U26, U1> as $crate::runner::UnitFn),
        ("26x2", $f::<U26, U2> as $crate::runner::UnitFn),
        ("26x3", $f::<U26, U3> as $crate::runner::UnitFn),
        ("26x4", $f::<U26, U4> as $crate::runner::UnitFn),
        ("26x5", $f::<U26, U5> as $crate::runner::UnitFn),
        ("26x6", $f::<U26, U6> as $crate::runner::UnitFn),
        ("26x7", $f::<U26, U7> as $crate::runner::UnitFn),
        ("26x8", $f::<U26, U8> as $crate::runner::UnitFn),
        ("26x9", $f::<U26, U9> as $crate::runner::UnitFn),
        ("26x10", $f::<U26, U10> as $crate::runner::UnitFn),
        ("26x11", $f::<U26, U11> as $crate::runner::UnitFn),
        ("26x12", $f::<U26, U12> as $crate::runner::UnitFn),
        ("26x13", $f::<U26, U13> as $crate::runner::UnitFn),
        ("26x14", $f::<U26, U14> as $crate::runner::UnitFn),
        ("26x15", $f::<U26, U15> as $crate::runner::UnitFn),
        ("26x16", $f::<U26, U16> as $crate::runner::UnitFn),
        ("26x17", $f::<U26, U17> as $crate::runner::UnitFn),
        ("26x18", $f::<U26, U18> as $crate::runner::UnitFn),
        ("26x19", $f::<U26, U19> as $crate::runner::UnitFn),
        ("26x20", $f::<U26, U20> as $crate::runner::UnitFn),
        ("26x21", $f::<U26, U21> as $crate::runner::UnitFn),
        ("26x22", $f::<U26, U22> as $crate::runner::UnitFn),
        ("26x23", $f::<U26, U23> as $crate::runner::UnitFn),
        ("26x24", $f::<U26, U24> as $crate::runner::UnitFn),
        ("26x25", $f::<U26, U25> as $crate::runner::UnitFn),
        ("26x26", $f::<U26, U26> as $crate::runner::UnitFn),
        ("26x27", $f::<U26, U27> as $crate::runner::UnitFn),
        ("26x28", $f::<U26, U28> as $crate::runner::UnitFn),
        ("26x29", $f::<U26, U29> as $crate::runner::UnitFn),
        ("26x30", $f::<U26, U30> as $crate::runner::UnitFn),
        ("26x31", $f::<U26, U31> as $crate::runner::UnitFn),
        ("26x32", $f::<U26, U32> as $crate::runner::UnitFn),
        ("27x0", $f::<U27, U0> as $crate::runner::UnitFn),
        ("27x1", $f::<U27, U1> as $crate::runner::UnitFn),
        ("27x2", $f::<U27, U2> as $crate::runner::UnitFn),
        ("27x3", $f::<U27, U3> as $crate::runner::UnitFn),
        ("27x4", $f::<U27, U4> as $crate::runner::UnitFn),
        ("27x5", $f::<U27, U5> as $crate::runner::UnitFn),
        ("27x6", $f::<U27, U6> as $crate::runner::UnitFn),
        ("27x7", $f::<U27, U7> as $crate::runner::UnitFn),
        ("27x8", $f::<U27, U8> as $crate::runner::UnitFn),
        ("27x9", $f::<U27, U9> as $crate::runner::UnitFn),
        ("27x10", $f::<U27, U10> as $crate::runner::UnitFn),
        ("27x11", $f::<U27, U11> as $crate::runner::UnitFn),
        ("27x12", $f::<U27, U12> as $crate::runner::UnitFn),
        ("27x13", $f::<U27, U13> as $crate::runner::UnitFn),
        ("27x14", $f::<U27, U14> as $crate::runner::UnitFn),
        ("27x15", $f::<U27, U15> as $crate::runner::UnitFn),
        ("27x16", $f::<U27, U16> as $crate::runner::UnitFn),
        ("27x17", $f::<U27, U17> as $crate::runner::UnitFn),
        ("27x18", $f::<U27, U18> as $crate::runner::UnitFn),
        ("27x19", $f::<U27, U19> as $crate::runner::UnitFn),
        ("27x20", $f::<U27, U20> as $crate::runner::UnitFn),
        ("27x21", $f::<U27, U21> as $crate::runner::UnitFn),
        ("27x22", $f::<U27, U22> as $crate::runner::UnitFn),
        ("27x23", $f::<U27, U23> as $crate::runner::UnitFn),
        ("27x24", $f::<U27, U24> as $crate::runner::UnitFn),
        ("27x25", $f::<U27, U25> as $crate::runner::UnitFn),
        ("27x26", $f::<U27, U26> as $crate::runner::UnitFn),
        ("27x27", $f::<U27, U27> as $crate::runner::UnitFn),
        ("27x28", $f::<U27, U28> as $crate::runner::UnitFn),
        ("27x29", $f::<U27, U29> as $crate::runner::UnitFn),
        ("27x30", $f::<U27, U30> as $crate::runner::UnitFn),
        ("27x31", $f::<U27, U31> as $crate::runner::UnitFn),
        ("27x32", $f::<U27, U32> as $crate::runner::UnitFn),
        ("28x0", $f::<U28, U0> as $crate::runner::UnitFn),
        ("28x1", $f::<U28, U1> as $crate::runner::UnitFn),
        ("28x2", $f::<U28, U2> as $crate::runner::UnitFn),
        ("28x3", $f::<U28, U3> as $crate::runner::UnitFn),
        ("28x4", $f::<U28, U4> as $crate::runner::UnitFn),
        ("28x5", $f::<U28, U5> as $crate::runner::UnitFn),
        ("28x6", $f::<U28, U6> as $crate::runner::UnitFn),
        ("28x7", $f::<U28, U7> as $crate::runner::UnitFn),
        ("28x8", $f::<U28, U8> as $crate::runner::UnitFn),
        ("28x9", $f::<U28, U9> as $crate::runner::UnitFn),
        ("28x10", $f::<U28, U10> as $crate::runner::UnitFn),
        ("28x11", $f::<U28, U11> as $crate::runner::UnitFn),
        ("28x12", $f::<U28, U12> as $crate::runner::UnitFn),
        ("28x13", $f::<U28, U13> as $crate::runner::UnitFn),
        ("28x14", $f::<U28, U14> as $crate::runner::UnitFn),
        ("28x15", $f::<U28, U15> as $crate::runner::UnitFn),
        ("28x16", $f::<U28, U16> as $crate::runner::UnitFn),
        ("28x17", $f::<U28, U17> as $crate::runner::UnitFn),
        ("28x18", $f::<U28, U18> as $crate::runner::UnitFn),
        ("28x19", $f::<U28, U19> as $crate::runner::UnitFn),
        ("28x20", $f::<U28, U20> as $crate::runner::UnitFn),
        ("28x21", $f::<U28, U21> as $crate::runner::UnitFn),
        ("28x22", $f::<U28, U22> as $crate::runner::UnitFn),
        ("28x23", $f::<U28, U23> as $crate::runner::UnitFn),
        ("28x24", $f::<U28, U24> as $crate::runner::UnitFn),
        ("28x25", $f::<U28, U25> as $crate::runner::UnitFn),
        ("28x26", $f::<U28, U26> as $crate::runner::UnitFn),
        ("28x27", $f::<U28, U27> as $crate::runner::UnitFn),
        ("28x28", $f::<U28, U28> as $crate::runner::UnitFn),
        ("28x29", $f::<U28, U29> as $crate::runner::UnitFn),
        ("28x30", $f::<U28, U30> as $crate::runner::UnitFn),
        ("28x31", $f::<U28, U31> as $crate::runner::UnitFn),
        ("28x32", $f::<U28, U32> as $crate::runner::UnitFn),
        ("29x0", $f::<U29, U0> as $crate::runner::UnitFn),
        ("29x1", $f::<U29, U1> as $crate::runner::UnitFn),
        ("29x2", $f::<U29, U2> as $crate::runner::UnitFn),
        ("29x3", $f::<U29, U3> as $crate::runner::UnitFn),
        ("29x4", $f::<U29, U4> as $crate::runner::UnitFn),
        ("29x5", $f::<U29, U5> as $crate::runner::UnitFn),
        ("29x6", $f::<U29, U6> as $crate::runner::UnitFn),
        ("29x7", $f::<U29, U7> as $crate::runner::UnitFn),
        ("29x8", $f::<U29, U8> as $crate::runner::UnitFn),
        ("29x9", $f::<U29, U9> as $crate::runner::UnitFn),
        ("29x10", $f::<U29, U10> as $crate::runner::UnitFn),
        ("29x11", $f::<U29, U11> as $crate::runner::UnitFn),
        ("29x12", $f::<U29, U12> as $crate::runner::UnitFn),
        ("29x13", $f::<U29, U13> as $crate::runner::UnitFn),
        ("29x14", $f::<U29, U14> as $crate::runner::UnitFn),
        ("29x15", $f::<U29, U15> as $crate::runner::UnitFn),
        ("29x16", $f::<U29, U16> as $crate::runner::UnitFn),
        ("29x17", $f::<U29, U17> as $crate::runner::UnitFn),
        ("29x18", $f::<U29, U18> as $crate::runner::UnitFn),
        ("29x19", $f::<U29, U19> as $crate::runner::UnitFn),
        ("29x20", $f::<U29, U20> as $crate::runner::UnitFn),
        ("29x21", $f::<U29, U21> as $crate::runner::UnitFn),
        ("29x22", $f::<U29, U22> as $crate::runner::UnitFn),
        ("29x23", $f::<U29, U23> as $crate::runner::UnitFn),
        ("29x24", $f::<U29, U24> as $crate::runner::UnitFn),
        ("29x25", $f::<U29, U25> as $crate::runner::UnitFn),
        ("29x26", $f::<U29, U26> as $crate::runner::UnitFn),
        ("29x27", $f::<U29, U27> as $crate::runner::UnitFn),
        ("29x28", $f::<U29, U28> as $crate::runner::UnitFn),
        ("29x29", $f::<U29, U29> as $crate::runner::UnitFn),
        ("29x30", $f::<U29, U30> as $crate::runner::UnitFn),
        ("29x31", $f::<U29, U31> as $crate::runner::UnitFn),
        ("29x32", $f::<U29, U32> as $crate::runner::UnitFn),
        ("30x0", $f::<U30, U0> as $crate::runner::UnitFn),
        ("30x1", $f::<U30, U1> as $crate::runner::UnitFn),
        ("30x2", $f::<U30, U2> as $crate::runner::UnitFn),
        ("30x3", $f::<U30, U3> as $crate::runner::UnitFn),
        ("30x4", $f::<U30, U4> as $crate::runner::UnitFn),
        ("30x5", $f::<U30, U5> as $crate::runner::UnitFn),
        ("30x6", $f::<U30, U6> as $crate::runner::UnitFn),
        ("30x7", $f::<U30, U7> as $crate::runner::UnitFn),
        ("30x8", $f::<U30, U8> as $crate::runner::UnitFn),
        ("30x9", $f::<U30, U9> as $crate::runner::UnitFn),
        ("30x10", $f::<U30, U10> as $crate::runner::UnitFn),
        ("30x11", $f::<U30, U11> as $crate::runner::UnitFn),
        ("30x12", $f::<U30, U12> as $crate::runner::UnitFn),
        ("30x13", $f::<U30, U13> as $crate::runner::UnitFn),
        ("30x14", $f::<U30, U14> as $crate::runner::UnitFn),
        ("30x15", $f::<U30, U15> as $crate::runner::UnitFn),
        ("30x16", $f::<U30, U16> as $crate::runner::UnitFn),
        ("30x17", $f::<U30, U17> as $crate::runner::UnitFn),
        ("30x18", $f::<U30, U18> as $crate::runner::UnitFn),
        ("30x19", $f::<U30, U19> as $crate::runner::UnitFn),
        ("30x20", $f::<U30, U20> as $crate::runner::UnitFn),
        ("30x21", $f::<U30, U21> as $crate::runner::UnitFn),
        ("30x22", $f::<U30, U22> as $crate::runner::UnitFn),
        ("30x23", $f::<U30, U23> as $crate::runner::UnitFn),
        ("30x24", $f::<U30, U24> as $crate::runner::UnitFn),
        ("30x25", $f::<U30, U25> as $crate::runner::UnitFn),
        ("30x26", $f::<U30, U26> as $crate::runner::UnitFn),
        ("30x27", $f::<U30, U27> as $crate::runner::UnitFn),
        ("30x28", $f::<U30, U28> as $crate::runner::UnitFn),
        ("30x29", $f::<U30, U29> as $crate::runner::UnitFn),
        ("30x30", $f::<U30, U30> as $crate::runner::UnitFn),
        ("30x31", $f::<U30, U31> as $crate::runner::UnitFn),
        ("30x32", $f::<U30, U32> as $crate::runner::UnitFn),
        ("31x0", $f::<U31, U0> as $crate::runner::UnitFn),
        ("31x1", $f::<U31, U1> as $crate::runner::UnitFn),
        ("31x2", $f::<U31, U2> as $crate::runner::UnitFn),
        ("31x3", $f::<U31, U3> as $crate::runner::UnitFn),
        ("31x4", $f::<U31, U4> as $crate::runner::UnitFn),
        ("31x5", $f::<U31, U5> as $crate::runner::UnitFn),
        ("31x6", $f::<U31, U6> as $crate::runner::UnitFn),
        ("31x7", $f::<U31, U7> as $crate::runner::UnitFn),
        ("31x8", $f::<U31, U8> as $crate::runner::UnitFn),
        ("31x9", $f::<U31, U9> as $crate::runner::UnitFn),
        ("31x10", $f::<U31, U10> as $crate::runner::UnitFn),
        ("31x11", $f::<U31, U11> as $crate::runner::UnitFn),
        ("31x12", $f::<U31, U12> as $crate::runner::UnitFn),
        ("31x13", $f::<U31, U13> as $crate::runner::UnitFn),
        ("31x14", $f::<U31, U14> as $crate::runner::UnitFn),
        ("31x15", $f::<U31, U15> as $crate::runner::UnitFn),
        ("31x16", $f::<U31, U16> as $crate::runner::UnitFn),
        ("31x17", $f::<U31, U17> as $crate::runner::UnitFn),
        ("31x18", $f::<U31, U18> as $crate::runner::UnitFn),
        ("31x19", $f::<U31, U19> as $crate::runner::UnitFn),
        ("31x20", $f::<U31, U20> as $crate::runner::UnitFn),
        ("31x21", $f::<U31, U21> as $crate::runner::UnitFn),
        ("31x22", $f::<U31, U22> as $crate::runner::UnitFn),
        ("31x23", $f::<U31, U23> as $crate::runner::UnitFn),
        ("31x24", $f::<U31, U24> as $crate::runner::UnitFn),
        ("31x25", $f::<U31, U25> as $crate::runner::UnitFn),
        ("31x26", $f::<U31, U26> as $crate::runner::UnitFn),
        ("31x27", $f::<U31, U27> as $crate::runner::UnitFn),
        ("31x28", $f::<U31, U28> as $crate::runner::UnitFn),
        ("31x29", $f::<U31, U29> as $crate::runner::UnitFn),
        ("31x30", $f::<U31, U30> as $crate::runner::UnitFn),
        ("31x31", $f::<U31, U31> as $crate::runner::UnitFn),
        ("31x32", $f::<U31, U32> as $crate::runner::UnitFn),
        ("32x0", $f::<U32, U0> as $crate::runner::UnitFn),
        ("32x1", $f::<U32, U1> as $crate::runner::UnitFn),
        ("32x2", $f::<U32, U2> as $crate::runner::UnitFn),
        ("32x3", $f::<U32, U3> as $crate::runner::UnitFn),
        ("32x4", $f::<U32, U4> as $crate::runner::UnitFn),
        ("32x5", $f::<U32, U5> as $crate::runner::UnitFn),
        ("32x6", $f::<U32, U6> as $crate::runner::UnitFn),
        ("32x7", $f::<U32, U7> as $crate::runner::UnitFn),
        ("32x8", $f::<U32, U8> as $crate::runner::UnitFn),
        ("32x9", $f::<U32, U9> as $crate::runner::UnitFn),
        ("32x10", $f::<U32, U10> as $crate::runner::UnitFn),
        ("32x11", $f::<U32, U11> as $crate::runner::UnitFn),
        ("32x12", $f::<U32, U12> as $crate::runner::UnitFn),
        ("32x13", $f::<U32, U13> as $crate::runner::UnitFn),
        ("32x14", $f::<U32, U14> as $crate::runner::UnitFn),
        ("32x15", $f::<U32, U15> as $crate::runner::UnitFn),
        ("32x16", $f::<U32, U16> as $crate::runner::UnitFn),
        ("32x17", $f::<U32, U17> as $crate::runner::UnitFn),
        ("32x18", $f::<U32, U18> as $crate::runner::UnitFn),
        ("32x19", $f::<U32, U19> as $crate::runner::UnitFn),
        ("32x20", $f::<U32, U20> as $crate::runner::UnitFn),
        ("32x21", $f::<U32, U21> as $crate::runner::UnitFn),
        ("32x22", $f::<U32, U22> as $crate::runner::UnitFn),
        ("32x23", $f::<U32, U23> as $crate::runner::UnitFn),
        ("32x24", $f::<U32, U24> as $crate::runner::UnitFn),
        ("32x25", $f::<U32, U25> as $crate::runner::UnitFn),
        ("32x26", $f::<U32, U26> as $crate::runner::UnitFn),
        ("32x27", $f::<U32, U27> as $crate::runner::UnitFn),
        ("32x28", $f::<U32, U28> as $crate::runner::UnitFn),
        ("32x29", $f::<U32, U29> as $crate::runner::UnitFn),
        ("32x30", $f::<U32, U30> as $crate::runner::UnitFn),
        ("32x31", $f::<U32, U31> as $crate::runner::UnitFn),
        ("32x32", $f::<U32, U32> as $crate::runner::UnitFn),
    ] };
    ($f:ident, $e:ty) => { &[
        ("0x0", $f::<$e, U0, U0> as $crate::runner::UnitFn),
        ("0x1", $f::<$e, U0, U1> as $crate::runner::UnitFn),
        ("0x2", $f::<$e, U0, U2> as $crate::runner::UnitFn),
        ("0x3", $f::<$e, U0, U3> as $crate::runner::UnitFn),
        ("0x4", $f::<$e, U0, U4> as $crate::runner::UnitFn),
        ("0x5", $f::<$e, U0, U5> as $crate::runner::UnitFn),
        ("0x6", $f::<$e, U0, U6> as $crate::runner::UnitFn),
        ("0x7", $f::<$e, U0, U7> as $crate::runner::UnitFn),
        ("0x8", $f::<$e, U0, U8> as $crate::runner::UnitFn),
        ("0x9", $f::<$e, U0, U9> as $crate::runner::UnitFn),
        ("0x10", $f::<$e, U0, U10> as $crate::runner::UnitFn),
        ("0x11", $f::<$e, U0, U11> as $crate::runner::UnitFn),
        ("0x12", $f::<$e, U0, U12> as $crate::runner::UnitFn),
        ("0x13", $f::<$e, U0, U13> as $crate::runner::UnitFn),
        ("0x14", $f::<$e, U0, U14> as $crate::runner::UnitFn),
        ("0x15", $f::<$e, U0, U15> as $crate::runner::UnitFn),
        ("0x16", $f::<$e, U0, U16> as $crate::runner::UnitFn),
        ("0x17", $f::<$e, U0, U17> as $crate::runner::UnitFn),
        ("0x18", $f::<$e, U0, U18> as $crate::runner::UnitFn),
        ("0x19", $f::<$e, U0, U19> as $crate::runner::UnitFn),
        ("0x20", $f::<$e, U0, U20> as $crate::runner::UnitFn),
        ("0x21", $f::<$e, U0, U21> as $crate::runner::UnitFn),
        ("0x22", $f::<$e, U0, U22> as $crate::runner::UnitFn),
        ("0x23", $f::<$e, U0, U23> as $crate::runner::UnitFn),
        ("0x24", $f::<$e, U0, U24> as $crate::runner::UnitFn),
        ("0x25", $f::<$e, U0, U25> as $crate::runner::UnitFn),
        ("0x26", $f::<$e, U0, U26> as $crate::runner::UnitFn),
        ("0x27", $f::<$e, U0, U27> as $crate::runner::UnitFn),
        ("0x28", $f::<$e, U0, U28> as $crate::runner::UnitFn),
        ("0x29", $f::<$e, U0, U29> as $crate::runner::UnitFn),
        ("0x30", $f::<$e, U0, U30> as $crate::runner::UnitFn),
        ("0x31", $f::<$e, U0, U31> as $crate::runner::UnitFn),
        ("0x32", $f::<$e, U0, U32> as $crate::runner::UnitFn),
        ("1x0", $f::<$e, U1, U0> as $crate::runner::UnitFn),
        ("1x1", $f::<$e, U1, U1> as $crate::runner::UnitFn),
        ("1x2", $f::<$e, U1, U2> as $crate::runner::UnitFn),
        ("1x3", $f::<$e, U1, U3> as $crate::runner::UnitFn),
        ("1x4", $f::<$e, U1, U4> as $crate::runner::UnitFn),
        ("1x5", $f::<$e, U1, U5> as $crate::runner::UnitFn),
        ("1x6", $f::<$e, U1, U6> as $crate::runner::UnitFn),
        ("1x7", $f::<$e, U1, U7> as $crate::runner::UnitFn),
        ("1x8", $f::<$e, U1, U8> as $crate::runner::UnitFn),
        ("1x9", $f::<$e, U1, U9> as $crate::runner::UnitFn),
        ("1x10", $f::<$e, U1, U10> as $crate::runner::UnitFn),
        ("1x11", $f::<$e, U1, U11> as $crate::runner::UnitFn),
        ("1x12", $f::<$e, U1, U12> as $crate::runner::UnitFn),
        ("1x13", $f::<$e, U1, U13> as $crate::runner::UnitFn),
        ("1x14", $f::<$e, U1, U14> as $crate::runner::UnitFn),
        ("1x15", $f::<$e, U1, U15> as $crate::runner::UnitFn),
        ("1x16", $f::<$e, U1, U16> as $crate::runner::UnitFn),
        ("1x17", $f::<$e, U1, U17> as $crate::runner::UnitFn),
        ("1x18", $f::<$e, U1, U18> as $crate::runner::UnitFn),
        ("1x19", $f::<$e, U1, U19> as $crate::runner::UnitFn),
        ("1x20", $f::<$e, U1, U20> as $crate::runner::UnitFn),
        ("1x21", $f::<$e, U1, U21> as $crate::runner::UnitFn),
        ("1x22", $f::<$e, U1, U22> as $crate::runner::UnitFn),
        ("1x23", $f::<$e, U1, U23> as $crate::runner::UnitFn),
        ("1x24", $f::<$e, U1, U24> as $crate::runner::UnitFn),
        ("1x25", $f::<$e, U1, U25> as $crate::runner::UnitFn),
        ("1x26", $f::<$e, U1, U26> as $crate::runner::UnitFn),
        ("1x27", $f::<$e, U1, U27> as $crate::runner::UnitFn),
        ("1x28", $f::<$e, U1, U28> as $crate::runner::UnitFn),
        ("1x29", $f::<$e, U1, U29> as $crate::runner::UnitFn),
        ("1x30", $f::<$e, U1, U30> as $crate::runner::UnitFn),
        ("1x31", $f::<$e, U1, U31> as $crate::runner::UnitFn),
        ("1x32", $f::<$e, U1, U32> as $crate::runner::UnitFn),
        ("2x0", $f::<$e, U2, U0> as $crate::runner::UnitFn),
        ("2x1", $f::<$e, U2, U1> as $crate::runner::UnitFn),
        ("2x2", $f::<$e, U2, U2> as $crate::runner::UnitFn),
        ("2x3", $f::<$e, U2, U3> as $crate::runner::UnitFn),
        ("2x4", $f::<$e, U2, U4> as $crate::runner::UnitFn),
        ("2x5", $f::<$e, U2, U5> as $crate::runner::UnitFn),
        ("2x6", $f::<$e, U2, U6> as $crate::runner::UnitFn),
        ("2x7", $f::<$e, U2, U7> as $crate::runner::UnitFn),
        ("2x8", $f::<$e, U2, U8> as $crate::runner::UnitFn),
        ("2x9", $f::<$e, U2, U9> as $crate::runner::UnitFn),
        ("2x10", $f::<$e, U2, U10> as $crate::runner::UnitFn),
        ("2x11", $f::<$e, U2, U11> as $crate::runner::UnitFn),
        ("2x12", $f::<$e, U2, U12> as $crate::runner::UnitFn),
        ("2x13", $f::<$e, U2, U13> as $crate::runner::UnitFn),
        ("2x14", $f::<$e, U2, U14> as $crate::runner::UnitFn),
        ("2x15", $f::<$e, U2, U15> as $crate::runner::UnitFn),
        ("2x16", $f::<$e, U2, U16> as $crate::runner::UnitFn),
        ("2x17", $f::<$e, U2, U17> as $crate::runner::UnitFn),
        ("2x18", $f::<$e, U2, U18> as $crate::runner::UnitFn),
        ("2x19", $f::<$e, U2, U19> as $crate::runner::UnitFn),
        ("2x20", $f::<$e, U2, U20> as $crate::runner::UnitFn),
        ("2x21", $f::<$e, U2, U21> as $crate::runner::UnitFn),
        ("2x22", $f::<$e, U2, U22> as $crate::runner::UnitFn),
        ("2x23", $f::<$e, U2, U23> as $crate::runner::UnitFn),
        ("2x24", $f::<$e, U2, U24> as $crate::runner::UnitFn),
        ("2x25", $f::<$e, U2, U25> as $crate::runner::UnitFn),
        ("2x26", $f::<$e, U2, U26> as $crate::runner::UnitFn),
        ("2x27", $f::<$e, U2, U27> as $crate::runner::UnitFn),
        ("2x28", $f::<$e, U2, U28> as $crate::runner::UnitFn),
        ("2x29", $f::<$e, U2, U29> as $crate::runner::UnitFn),
        ("2x30", $f::<$e, U2, U30> as $crate::runner::UnitFn),
        ("2x31", $f::<$e, U2, U31> as $crate::runner::UnitFn),
        ("2x32", $f::<$e, U2, U32> as $crate::runner::UnitFn),
        ("3x0", $f::<$e, U3, U0> as $crate::runner::UnitFn),
        ("3x1", $f::<$e, U3, U1> as $crate::runner::UnitFn),
        ("3x2", $f::<$e, U3, U2> as $crate::runner::UnitFn),
        ("3x3", $f::<$e, U3, U3> as $crate::runner::UnitFn),
        ("3x4", $f::<$e, U3, U4> as $crate::runner::UnitFn),
        ("3x5", $f::<$e, U3, U5> as $crate::runner::UnitFn),
        ("3x6", $f::<$e, U3, U6> as $crate::runner::UnitFn),
        ("3x7", $f::<$e, U3, U7> as $crate::runner::UnitFn),
        ("3x8", $f::<$e, U3, U8> as $crate::runner::UnitFn),
        ("3x9", $f::<$e, U3, U9> as $crate::runner::UnitFn),
        ("3x10", $f::<$e, U3, U10> as $crate::runner::UnitFn),
        ("3x11", $f::<$e, U3, U11> as $crate::runner::UnitFn),
        ("3x12", $f::<$e, U3, U12> as $crate::runner::UnitFn),
        ("3x13", $f::<$e, U3, U13> as $crate::runner::UnitFn),
        ("3x14", $f::<$e, U3, U14> as $crate::runner::UnitFn),
        ("3x15", $f::<$e, U3, U15> as $crate::runner::UnitFn),
        ("3x16", $f::<$e, U3, U16> as $crate::runner::UnitFn),
        ("3x17", $f::<$e, U3, U17> as $crate::runner::UnitFn),
        ("3x18", $f::<$e, U3, U18> as $crate::runner::UnitFn),
        ("3x19", $f::<$e, U3, U19> as $crate::runner::UnitFn),
        ("3x20", $f::<$e, U3, U20> as $crate::runner::UnitFn),
        ("3x21", $f::<$e, U3, U21> as $crate::runner::UnitFn),
        ("3x22", $f::<$e, U3, U22> as $crate::runner::UnitFn),
        ("3x23", $f::<$e, U3, U23> as $crate::runner::UnitFn),
        ("3x24", $f::<$e, U3, U24> as $crate::runner::UnitFn),
        ("3x25", $f::<$e, U3, U25> as $crate::runner::UnitFn),
        ("3x26", $f::<$e, U3, U26> as $crate::runner::UnitFn),
        ("3x27", $f::<$e, U3, U27> as $crate::runner::UnitFn),
        ("3x28", $f::<$e, U3, U28> as $crate::runner::UnitFn),
        ("3x29", $f::<$e, U3, U29> as $crate::runner::UnitFn),
        ("3x30", $f::<$e, U3, U30> as $crate::runner::UnitFn),
        ("3x31", $f::<$e, U3, U31> as $crate::runner::UnitFn),
        ("3x32", $f::<$e, U3, U32> as $crate::runner::UnitFn),
        ("4x0", $f::<$e, U4, U0> as $crate::runner::UnitFn),
        ("4x1", $f::<$e, U4, U1> as $crate::runner::UnitFn),
        ("4x2", $f::<$e, U4, U2> as $crate::runner::UnitFn),
        ("4x3", $f::<$e, U4, U3> as $crate::runner::UnitFn),
        ("4x4", $f::<$e, U4, U4> as $crate::runner::UnitFn),
        ("4x5", $f::<$e, U4, U5> as $crate::runner::UnitFn),
        ("4x6", $f::<$e, U4, U6> as $crate::runner::UnitFn),
        ("4x7", $f::<$e, U4, U7> as $crate::runner::UnitFn),
        ("4x8", $f::<$e, U4, U8> as $crate::runner::UnitFn),
        ("4x9", $f::<$e, U4, U9> as $crate::runner::UnitFn),
        ("4x10", $f::<$e, U4, U10> as $crate::runner::UnitFn),
        ("4x11", $f::<$e, U4, U11> as $crate::runner::UnitFn),
        ("4x12", $f::<$e, U4, U12> as $crate::runner::UnitFn),
        ("4x13", $f::<$e, U4, U13> as $crate::runner::UnitFn),
        ("4x14", $f::<$e, U4, U14> as $crate::runner::UnitFn),
        ("4x15", $f::<$e, U4, U15> as $crate::runner::UnitFn),
        ("4x16", $f::<$e, U4, U16> as $crate::runner::UnitFn),
        ("4x17", $f::<$e, U4, U17> as $crate::runner::UnitFn),
        ("4x18", $f::<$e, U4, U18> as $crate::runner::UnitFn),
        ("4x19", $f::<$e, U4, U19> as $crate::runner::UnitFn),
        ("4x20", $f::<$e, U4, U20> as $crate::runner::UnitFn),
        ("4x21", $f::<$e, U4, U21> as $crate::runner::UnitFn),
        ("4x22", $f::<$e, U4, U22> as $crate::runner::UnitFn),
        ("4x23", $f::<$e, U4, U23> as $crate::runner::UnitFn),
        ("4x24", $f::<$e, U4, U24> as $crate::runner::UnitFn),
        ("4x25", $f::<$e, U4, U25> as $crate::runner::UnitFn),
        ("4x26", $f::<$e, U4, U26> as $crate::runner::UnitFn),
        ("4x27", $f::<$e, U4, U27> as $crate::runner::UnitFn),
        ("4x28", $f::<$e, U4, U28> as $crate::runner::UnitFn),
        ("4x29", $f::<$e, U4, U29> as $crate::runner::UnitFn),
        ("4x30", $f::<$e, U4, U30> as $crate::runner::UnitFn),
        ("4x31", $f::<$e, U4, U31> as $crate::runner::UnitFn),
        ("4x32", $f::<$e, U4, U32> as $crate::runner::UnitFn),
        ("5x0", $f::<$e, U5, U0> as $crate::runner::UnitFn),
        ("5x1", $f::<$e, U5, U1> as $crate::runner::UnitFn),
        ("5x2", $f::<$e, U5, U2> as $crate::runner::UnitFn),
        ("5x3", $f::<$e, U5, U3> as $crate::runner::UnitFn),
        ("5x4", $f::<$e, U5, U4> as $crate::runner::UnitFn),
        ("5x5", $f::<$e, U5, U5> as $crate::runner::UnitFn),
        ("5x6", $f::<$e, U5, U6> as $crate::runner::UnitFn),
        ("5x7", $f::<$e, U5, U7> as $crate::runner::UnitFn),
        ("5x8", $f::<$e, U5, U8> as $crate::runner::UnitFn),
        ("5x9", $f::<$e, U5, U9> as $crate::runner::UnitFn),
        ("5x10", $f::<$e, U5, U10> as $crate::runner::UnitFn),
        ("5x11", $f::<$e, U5, U11> as $crate::runner::UnitFn),
        ("5x12", $f::<$e, U5, U12> as $crate::runner::UnitFn),
        ("5x13", $f::<$e, U5, U13> as $crate::runner::UnitFn),
        ("5x14", $f::<$e, U5, U14> as $crate::runner::UnitFn),
        ("5x15", $f::<$e, U5, U15> as $crate::runner::UnitFn),
        ("5x16", $f::<$e, U5, U16> as $crate::runner::UnitFn),
        ("5x17", $f::<$e, U5, U17> as $crate::runner::UnitFn),
        ("5x18", $f::<$e, U5, U18> as $crate::runner::UnitFn),
        ("5x19", $f::<$e, U5, U19> as $crate::runner::UnitFn),
        ("5x20", $f::<$e, U5, U20> as $crate::runner::UnitFn),
        ("5x21", $f::<$e, U5, U21> as $crate::runner::UnitFn),
        ("5x22", $f::<$e, U5, U22> as $crate::runner::UnitFn),
        ("5x23", $f::<$e, U5, U23> as $crate::runner::UnitFn),
        ("5x24", $f::<$e, U5, U24> as $crate::runner::UnitFn),
        ("5x25", $f::<$e, U5, U25> as $crate::runner::UnitFn),
        ("5x26", $f::<$e, U5, U26> as $crate::runner::UnitFn),
        ("5x27", $f::<$e, U5, U27> as $crate::runner::UnitFn),
        ("5x28", $f::<$e, U5, U28> as $crate::runner::UnitFn),
        ("5x29", $f::<$e, U5, U29> as $crate::runner::UnitFn),
        ("5x30", $f::<$e, U5, U30> as $crate::runner::UnitFn),
        ("5x31", $f::<$e, U5, U31> as $crate::runner::UnitFn),
        ("5x32", $f::<$e, U5, U32> as $crate::runner::UnitFn),
        ("6x0", $f::<$e, U6, U0> as $crate::runner::UnitFn),
        ("6x1", $f::<$e, U6, U1> as $crate::runner::UnitFn),
        ("6x2", $f::<$e, U6, U2> as $crate::runner::UnitFn),
        ("6x3", $f::<$e, U6, U3> as $crate::runner::UnitFn),
        ("6x4", $f::<$e, U6, U4> as $crate::runner::UnitFn),
        ("6x5", $f::<$e, U6, U5> as $crate::runner::UnitFn),
        ("6x6", $f::<$e, U6, U6> as $crate::runner::UnitFn),
        ("6x7", $f::<$e, U6, U7> as $crate::runner::UnitFn),
        ("6x8", $f::<$e, U6, U8> as $crate::runner::UnitFn),
        ("6x9", $f::<$e, U6, U9> as $crate::runner::UnitFn),
        ("6x10", $f::<$e, U6, U10> as $crate::runner::UnitFn),
        ("6x11", $f::<$e, U6, U11> as $crate::runner::UnitFn),
        ("6x12", $f::<$e, U6, U12> as $crate::runner::UnitFn),
        ("6x13", $f::<$e, U6, U13> as $crate::runner::UnitFn),
        ("6x14", $f::<$e, U6, U14> as $crate::runner::UnitFn),
        ("6x15", $f::<$e, U6, U15> as $crate::runner::UnitFn),
        ("6x16", $f::<$e, U6, U16> as $crate::runner::UnitFn),
        ("6x17", $f::<$e, U6, U17> as $crate::runner::UnitFn),
        ("6x18", $f::<$e, U6, U18> as $crate::runner::UnitFn),
        ("6x19", $f::<$e, U6, U19> as $crate::runner::UnitFn),
        ("6x20", $f::<$e, U6, U20> as $crate::runner::UnitFn),
        ("6x21", $f::<$e, U6, U21> as $crate::runner::UnitFn),
        ("6x22", $f::<$e, U6, U22> as $crate::runner::UnitFn),
        ("6x23", $f::<$e, U6, U23> as $crate::runner::UnitFn),
        ("6x24", $f::<$e, U6, U24> as $crate::runner::UnitFn),
        ("6x25", $f::<$e, U6, U25> as $crate::runner::UnitFn),
        ("6x26", $f::<$e, U6, U26> as $crate::runner::UnitFn),
        ("6x27", $f::<$e, U6, U27> as $crate::runner::UnitFn),
        ("6x28", $f::<$e, U6, U28> as $crate::runner::UnitFn),
        ("6x29", $f::<$e, U6, U29> as $crate::runner::UnitFn),
        ("6x30", $f::<$e, U6, U30> as $crate::runner::UnitFn),
        ("6x31", $f::<$e, U6, U31> as $crate::runner::UnitFn),
        ("6x32", $f::<$e, U6, U32> as $crate::runner::UnitFn),
        ("7x0", $f::<$e, U7, U0> as $crate::runner::UnitFn),
        ("7x1", $f::<$e, U7, U1> as $crate::runner::UnitFn),
        ("7x2", $f::<$e, U7, U2> as $crate::runner::UnitFn),
        ("7x3", $f::<$e, U7, U3> as $crate::runner::UnitFn),
        ("7x4", $f::<$e, U7, U4> as $crate::runner::UnitFn),
        ("7x5", $f::<$e, U7, U5> as $crate::runner::UnitFn),
        ("7x6", $f::<$e, U7, U6> as $crate::runner::UnitFn),
        ("7x7", $f::<$e, U7, U7> as $crate::runner::UnitFn),
        ("7x8", $f::<$e, U7, U8> as $crate::runner::UnitFn),
        ("7x9", $f::<$e, U7, U9> as $crate::runner::UnitFn),
        ("7x10", $f::<$e, U7, U10> as $crate::runner::UnitFn),
        ("7x11", $f::<$e, U7, U11> as $crate::runner::UnitFn),
        ("7x12", $f::<$e, U7, U12> as $crate::runner::UnitFn),
        ("7x13", $f::<$e, U7, U13> as $crate::runner::UnitFn),
        ("7x14", $f::<$e, U7, U14> as $crate::runner::UnitFn),
        ("7x15", $f::<$e, U7, U15> as $crate::runner::UnitFn),
        ("7x16", $f::<$e, U7, U16> as $crate::runner::UnitFn),
        ("7x17", $f::<$e, U7, U17> as $crate::runner::UnitFn),
        ("7x18", $f::<$e, U7, U18> as $crate::runner::UnitFn),
        ("7x19", $f::<$e, U7, U19> as $crate::runner::UnitFn),
        ("7x20", $f::<$e, U7, U20> as $crate::runner::UnitFn),
        ("7x21", $f::<$e, U7, U21> as $crate::runner::UnitFn),
        ("7x22", $f::<$e, U7, U22> as $crate::runner::UnitFn),
        ("7x23", $f::<$e, U7, U23> as $crate::runner::UnitFn),
        ("7x24", $f::<$e, U7, U24> as $crate::runner::UnitFn),
        ("7x25", $f::<$e, U7, U25> as $crate::runner::UnitFn),
        ("7x26", $f::<$e, U7, U26> as $crate::runner::UnitFn),
        ("7x27", $f::<$e, U7, U27> as $crate::runner::UnitFn),
        ("7x28", $f::<$e, U7, U28> as $crate::runner::UnitFn),
        ("7x29", $f::<$e, U7, U29> as $crate::runner::UnitFn),
        ("7x30", $f::<$e, U7, U30> as $crate::runner::UnitFn),
        ("7x31", $f::<$e, U7, U31> as $crate::runner::UnitFn),
        ("7x32", $f::<$e, U7, U32> as $crate::runner::UnitFn),
        ("8x0", $f::<$e, U8, U0> as $crate::runner::UnitFn),
        ("8x1", $f::<$e, U8, U1> as $crate::runner::UnitFn),
        ("8x2", $f::<$e, U8, U2> as $crate::runner::UnitFn),
        ("8x3", $f::<$e, U8, U3> as $crate::runner::UnitFn),
        ("8x4", $f::<$e, U8, U4> as $crate::runner::UnitFn),
        ("8x5", $f::<$e, U8, U5> as $crate::runner::UnitFn),
        ("8x6", $f::<$e, U8, U6> as $crate::runner::UnitFn),
        ("8x7", $f::<$e, U8, U7> as $crate::runner::UnitFn),
        ("8x8", $f::<$e, U8, U8> as $crate::runner::UnitFn),
        ("8x9", $f::<$e, U8, U9> as $crate::runner::UnitFn),
        ("8x10", $f::<$e, U8, U10> as $crate::runner::UnitFn),
        ("8x11", $f::<$e, U8, U11> as $crate::runner::UnitFn),
        ("8x12", $f::<$e, U8, U12> as $crate::runner::UnitFn),
        ("8x13", $f::<$e, U8, U13> as $crate::runner::UnitFn),
        ("8x14", $f::<$e, U8, U14> as $crate::runner::UnitFn),
        ("8x15", $f::<$e, U8, U15> as $crate::runner::UnitFn),
        ("8x16", $f::<$e, U8, U16> as $crate::runner::UnitFn),
        ("8x17", $f::<$e, U8, U17> as $crate::runner::UnitFn),
        ("8x18", $f::<$e, U8, U18> as $crate::runner::UnitFn),
        ("8x19", $f::<$e, U8, U19> as $crate::runner::UnitFn),
        ("8x20", $f::<$e, U8, U20> as $crate::runner::UnitFn),
        ("8x21", $f::<$e, U8, U21> as $crate::runner::UnitFn),
        ("8x22", $f::<$e, U8, U22> as $crate::runner::UnitFn),
        ("8x23", $f::<$e, U8, U23> as $crate::runner::UnitFn),
        ("8x24", $f::<$e, U8, U24> as $crate::runner::UnitFn),
        ("8x25", $f::<$e, U8, U25> as $crate::runner::UnitFn),
        ("8x26", $f::<$e, U8, U26> as $crate::runner::UnitFn),
        ("8x27", $f::<$e, U8, U27> as $crate::runner::UnitFn),
        ("8x28", $f::<$e, U8, U28> as $crate::runner::UnitFn),
        ("8x29", $f::<$e, U8, U29> as $crate::runner::UnitFn),
        ("8x30", $f::<$e, U8, U30> as $crate::runner::UnitFn),
        ("8x31", $f::<$e, U8, U31> as $crate::runner::UnitFn),
        ("8x32", $f::<$e, U8, U32> as $crate::runner::UnitFn),
        ("9x0", $f::<$e, U9, U0> as $crate::runner::UnitFn),
        ("9x1", $f::<$e, U9, U1> as $crate::runner::UnitFn),
        ("9x2", $f::<$e, U9, U2> as $crate::runner::UnitFn),
        ("9x3", $f::<$e, U9, U3> as $crate::runner::UnitFn),
        ("9x4", $f::<$e, U9, U4> as $crate::runner::UnitFn),
        ("9x5", $f::<$e, U9, U5> as $crate::runner::UnitFn),
        ("9x6", $f::<$e, U9, U6> as $crate::runner::UnitFn),
        ("9x7", $f::<$e, U9, U7> as $crate::runner::UnitFn),
        ("9x8", $f::<$e, U9, U8> as $crate::runner::UnitFn),
        ("9x9", $f::<$e, U9, U9> as $crate::runner::UnitFn),
        ("9x10", $f::<$e, U9, U10> as $crate::runner::UnitFn),
        ("9x11", $f::<$e, U9, U11> as $crate::runner::UnitFn),
        ("9x12", $f::<$e, U9, U12> as $crate::runner::UnitFn),
        ("9x13", $f::<$e, U9, U13> as $crate::runner::UnitFn),
        ("9x14", $f::<$e, U9, U14> as $crate::runner::UnitFn),
        ("9x15", $f::<$e, U9, U15> as $crate::runner::UnitFn),
        ("9x16", $f::<$e, U9, U16> as $crate::runner::UnitFn),
        ("9x17", $f::<$e, U9, U17> as $crate::runner::UnitFn),
        ("9x18", $f::<$e, U9, U18> as $crate::runner::UnitFn),
        ("9x19", $f::<$e, U9, U19> as $crate::runner::UnitFn),
        ("9x20", $f::<$e, U9, U20> as $crate::runner::UnitFn),
        ("9x21", $f::<$e, U9, U21> as $crate::runner::UnitFn),
        ("9x22", $f::<$e, U9, U22> as $crate::runner::UnitFn),
        ("9x23", $f::<$e, U9, U23> as $crate::runner::UnitFn),
        ("9x24", $f::<$e, U9, U24> as $crate::runner::UnitFn),
        ("9x25", $f::<$e, U9, U25> as $crate::runner::UnitFn),
        ("9x26", $f::<$e, U9, U26> as $crate::runner::UnitFn),
        ("9x27", $f::<$e, U9, U27> as $crate::runner::UnitFn),
        ("9x28", $f::<$e, U9, U28> as $crate::runner::UnitFn),
        ("9x29", $f::<$e, U9, U29> as $crate::runner::UnitFn),
        ("9x30", $f::<$e, U9, U30> as $crate::runner::UnitFn),
        ("9x31", $f::<$e, U9, U31> as $crate::runner::UnitFn),
        ("9x32", $f::<$e, U9, U32> as $crate::runner::UnitFn),
        ("10x0", $f::<$e, U10, U0> as $crate::runner::UnitFn),
        ("10x1", $f::<$e, U10, U1> as $crate::runner::UnitFn),
        ("10x2", $f::<$e, U10, U2> as $crate::runner::UnitFn),
        ("10x3", $f::<$e, U10, U3> as $crate::runner::UnitFn),
        ("10x4", $f::<$e, U10, U4> as $crate::runner::UnitFn),
        ("10x5", $f::<$e, U10, U5> as $crate::runner::UnitFn),
        ("10x6", $f::<$e, U10, U6> as $crate::runner::UnitFn),
        ("10x7", $f::<$e, U10, U7> as $crate::runner::UnitFn),
        ("10x8", $f::<$e, U10, U8> as $crate::runner::UnitFn),
        ("10x9", $f::<$e, U10, U9> as $crate::runner::UnitFn),
        ("10x10", $f::<$e, U10, U10> as $crate::runner::UnitFn),
        ("10x11", $f::<$e, U10, U11> as $crate::runner::UnitFn),
        ("10x12", $f::<$e, U10, U12> as $crate::runner::UnitFn),
        ("10x13", $f::<$e, U10, U13> as $crate::runner::UnitFn),
        ("10x14", $f::<$e, U10, U14> as $crate::runner::UnitFn),
        ("10x15", $f::<$e, U10, U15> as $crate::runner::UnitFn),
        ("10x16", $f::<$e, U10, U16> as $crate::runner::UnitFn),
        ("10x17", $f::<$e, U10, U17> as $crate::runner::UnitFn),
        ("10x18", $f::<$e, U10, U18> as $crate::runner::UnitFn),
        ("10x19", $f::<$e, U10, U19> as $crate::runner::UnitFn),
        ("10x20", $f::<$e, U10, U20> as $crate::runner::UnitFn),
        ("10x21", $f::<$e, U10, U21> as $crate::runner::UnitFn),
        ("10x22", $f::<$e, U10, U22> as $crate::runner::UnitFn),
        ("10x23", $f::<$e, U10, U23> as $crate::runner::UnitFn),
        ("10x24", $f::<$e, U10, U24> as $crate::runner::UnitFn),
        ("10x25", $f::<$e, U10, U25> as $crate::runner::UnitFn),
        ("10x26", $f::<$e, U10, U26> as $crate::runner::UnitFn),
        ("10x27", $f::<$e, U10, U27> as $crate::runner::UnitFn),
        ("10x28", $f::<$e, U10, U28> as $crate::runner::UnitFn),
        ("10x29", $f::<$e, U10, U29> as $crate::runner::UnitFn),
        ("10x30", $f::<$e, U10, U30> as $crate::runner::UnitFn),
        ("10x31", $f::<$e, U10, U31> as $crate::runner::UnitFn),
        ("10x32", $f::<$e, U10, U32> as $crate::runner::UnitFn),
        ("11x0", $f::<$e, U11, U0> as $crate::runner::UnitFn),
        ("11x1", $f::<$e, U11, U1> as $crate::runner::UnitFn),
        ("11x2", $f::<$e, U11, U2> as $crate::runner::UnitFn),
        ("11x3", $f::<$e, U11, U3> as $crate::runner::UnitFn),
        ("11x4", $f::<$e, U11, U4> as $crate::runner::UnitFn),
        ("11x5", $f::<$e, U11, U5> as $crate::runner::UnitFn),
        ("11x6", $f::<$e, U11, U6> as $crate::runner::UnitFn),
        ("11x7", $f::<$e, U11, U7> as $crate::runner::UnitFn),
        ("11x8", $f::<$e, U11, U8> as $crate::runner::UnitFn),
        ("11x9", $f::<$e, U11, U9> as $crate::runner::UnitFn),
        ("11x10", $f::<$e, U11, U10> as $crate::runner::UnitFn),
        ("11x11", $f::<$e, U11, U11> as $crate::runner::UnitFn),
        ("11x12", $f::<$e, U11, U12> as $crate::runner::UnitFn),
        ("11x13", $f::<$e, U11, U13> as $crate::runner::UnitFn),
        ("11x14", $f::<$e, U11, U14> as $crate::runner::UnitFn),
        ("11x15", $f::<$e, U11, U15> as $crate::runner::UnitFn),
        ("11x16", $f::<$e, U11, U16> as $crate::runner::UnitFn),
        ("11x17", $f::<$e, U11, U17> as $crate::runner::UnitFn),
        ("11x18", $f::<$e, U11, U18> as $crate::runner::UnitFn),
        ("11x19", $f::<$e, U11, U19> as $crate::runner::UnitFn),
        ("11x20", $f::<$e, U11, U20> as $crate::runner::UnitFn),
        ("11x21", $f::<$e, U11, U21> as $crate::runner::UnitFn),
        ("11x22", $f::<$e, U11, U22> as $crate::runner::UnitFn),
        ("11x23", $f::<$e, U11, U23> as $crate::runner::UnitFn),
        ("11x24", $f::<$e, U11, U24> as $crate::runner::UnitFn),
        ("11x25", $f::<$e, U11, U25> as $crate::runner::UnitFn),
        ("11x26", $f::<$e, U11, U26> as $crate::runner::UnitFn),
        ("11x27", $f::<$e, U11, U27> as $crate::runner::UnitFn),
        ("11x28", $f::<$e, U11, U28> as $crate::runner::UnitFn),
        ("11x29", $f::<$e, U11, U29> as $crate::runner::UnitFn),
        ("11x30", $f::<$e, U11, U30> as $crate::runner::UnitFn),
        ("11x31", $f::<$e, U11, U31> as $crate::runner::UnitFn),
        ("11x32", $f::<$e, U11, U32> as $crate::runner::UnitFn),
        ("12x0", $f::<$e, U12, U0> as $crate::runner::UnitFn),
        ("12x1", $f::<$e, U12, U1> as $crate::runner::UnitFn),
        ("12x2", $f::<$e, U12, U2> as $crate::runner::UnitFn),
        ("12x3", $f::<$e, U12, U3> as $crate::runner::UnitFn),
        ("12x4", $f::<$e, U12, U4> as $crate::runner::UnitFn),
        ("12x5", $f::<$e, U12, U5> as $crate::runner::UnitFn),
        ("12x6", $f::<$e, U12, U6> as $crate::runner::UnitFn),
        ("12x7", $f::<$e, U12, U7> as $crate::runner::UnitFn),
        ("12x8", $f::<$e, U12, U8> as $crate::runner::UnitFn),
        ("12x9", $f::<$e, U12, U9> as $crate::runner::UnitFn),
        ("12x10", $f::<$e, U12, U10> as $crate::runner::UnitFn),
        ("12x11", $f::<$e, U12, U11> as $crate::runner::UnitFn),
        ("12x12", $f::<$e, U12, U12> as $crate::runner::UnitFn),
        ("12x13", $f::<$e, U12, U13> as $crate::runner::UnitFn),
        ("12x14", $f::<$e, U12, U14> as $crate::runner::UnitFn),
        ("12x15", $f::<$e, U12, U15> as $crate::runner::UnitFn),
        ("12x16", $f::<$e, U12, U16> as $crate::runner::UnitFn),
        ("12x17", $f::<$e, U12, U17> as $crate::runner::UnitFn),
        ("12x18", $f::<$e, U12, U18> as $crate::runner::UnitFn),
        ("12x19", $f::<$e, U12, U19> as $crate::runner::UnitFn),
        ("12x20", $f::<$e, U12, U20> as $crate::runner::UnitFn),
        ("12x21", $f::<$e, U12, U21> as $crate::runner::UnitFn),
        ("12x22", $f::<$e, U12, U22> as $crate::runner::UnitFn),
        ("12x23", $f::<$e, U12, U23> as $crate::runner::UnitFn),
        ("12x24", $f::<$e, U12, U24> as $crate::runner::UnitFn),
        ("12x25", $f::<$e, U12, U25> as $crate::runner::UnitFn),
        ("12x26", $f::<$e, U12, U26> as $crate::runner::UnitFn),
        ("12x27", $f::<$e, U12, U27> as $crate::runner::UnitFn),
        ("12x28", $f::<$e, U12, U28> as $crate::runner::UnitFn),
        ("12x29", $f::<$e, U12, U29> as $crate::runner::UnitFn),
        ("12x30", $f::<$e, U12, U30> as $crate::runner::UnitFn),
        ("12x31", $f::<$e, U12, U31> as $crate::runner::UnitFn),
        ("12x32", $f::<$e, U12, U32> as $crate::runner::UnitFn),
        ("13x0", $f::<$e, U13, U0> as $crate::runner::UnitFn),
        ("13x1", $f::<$e, U13, U1> as $crate::runner::UnitFn),
        ("13x2", $f::<$e, U13, U2> as $crate::runner::UnitFn),
        ("13x3", $f::<$e, U13, U3> as $crate::runner::UnitFn),
        ("13x4", $f::<$e, U13, U4> as $crate::runner::UnitFn),
        ("13x5", $f::<$e, U13, U5> as $crate::runner::UnitFn),
        ("13x6", $f::<$e, U13, U6> as $crate::runner::UnitFn),
        ("13x7", $f::<$e, U13, U7> as $crate::runner::UnitFn),
        ("13x8", $f::<$e, U13, U8> as $crate::runner::UnitFn),
        ("13x9", $f::<$e, U13, U9> as $crate::runner::UnitFn),
        ("13x10", $f::<$e, U13, U10> as $crate::runner::UnitFn),
        ("13x11", $f::<$e, U13, U11> as $crate::runner::UnitFn),
        ("13x12", $f::<$e, U13, U12> as $crate::runner::UnitFn),
        ("13x13", $f::<$e, U13, U13> as $crate::runner::UnitFn),
        ("13x14", $f::<$e, U13, U14> as $crate::runner::UnitFn),
        ("13x15", $f::<$e, U13, U15> as $crate::runner::UnitFn),
        ("13x16", $f::<$e, U13, U16> as $crate::runner::UnitFn),
        ("13x17", $f::<$e, U13, U17> as $crate::runner::UnitFn),
        ("13x18", $f::<$e, U13, U18> as $crate::runner::UnitFn),
        ("13x19", $f::<$e, U13, U19> as $crate::runner::UnitFn),
        ("13x20", $f::<$e, U13, U20> as $crate::runner::UnitFn),
        ("13x21", $f::<$e, U13, U21> as $crate::runner::UnitFn),
        ("13x22", $f::<$e, U13, U22> as $crate::runner::UnitFn),
        ("13x23", $f::<$e, U13, U23> as $crate::runner::UnitFn),
        ("13x24", $f::<$e, U13, U24> as $crate::runner::UnitFn),
        ("13x25", $f::<$e, U13, U25> as $crate::runner::UnitFn),
        ("13x26", $f::<$e, U13, U26> as $crate::runner::UnitFn),
        ("13x27", $f::<$e, U13, U27> as $crate::runner::UnitFn),
        ("13x28", $f::<$e, U13, U28> as $crate::runner::UnitFn),
        ("13x29", $f::<$e, U13, U29> as $crate::runner::UnitFn),
        ("13x30", $f::<$e, U13, U30> as $crate::runner::UnitFn),
        ("13x31", $f::<$e, U13, U31> as $crate::runner::UnitFn),
        ("13x32", $f::<$e, U13, U32> as $crate::runner::UnitFn),
        ("14x0", $f::<$e, U14, U0> as $crate::runner::UnitFn),
        ("14x1", $f::<$e, U14, U1> as $crate::runner::UnitFn),
        ("14x2", $f::<$e, U14, U2> as $crate::runner::UnitFn),
        ("14x3", $f::<$e, U14, U3> as $crate::runner::UnitFn),
        ("14x4", $f::<$e, U14, U4> as $crate::runner::UnitFn),
        ("14x5", $f::<$e, U14, U5> as $crate::runner::UnitFn),
        ("14x6", $f::<$e, U14, U6> as $crate::runner::UnitFn),
        ("14x7", $f::<$e, U14, U7> as $crate::runner::UnitFn),
        ("14x8", $f::<$e, U14, U8> as $crate::runner::UnitFn),
        ("14x9", $f::<$e, U14, U9> as $crate::runner::UnitFn),
        ("14x10", $f::<$e, U14, U10> as $crate::runner::UnitFn),
        ("14x11", $f::<$e, U14, U11> as $crate::runner::UnitFn),
        ("14x12", $f::<$e, U14, U12> as $crate::runner::UnitFn),
        ("14x13", $f::<$e, U14, U13> as $crate::runner::UnitFn),
        ("14x14", $f::<$e, U14, U14> as $crate::runner::UnitFn),
        ("14x15", $f::<$e, U14, U15> as $crate::runner::UnitFn),
        ("14x16", $f::<$e, U14, U16> as $crate::runner::UnitFn),
        ("14x17", $f::<$e, U14, U17> as $crate::runner::UnitFn),
        ("14x18", $f::<$e, U14, U18> as $crate::runner::UnitFn),
        ("14x19", $f::<$e, U14, U19> as $crate::runner::UnitFn),
        ("14x20", $f::<$e, U14, U20> as $crate::runner::UnitFn),
        ("14x21", $f::<$e, U14, U21> as $crate::runner::UnitFn),
        ("14x22", $f::<$e, U14, U22> as $crate::runner::UnitFn),
        ("14x23", $f::<$e, U14, U23> as $crate::runner::UnitFn),
        ("14x24", $f::<$e, U14, U24> as $crate::runner::UnitFn),
        ("14x25", $f::<$e, U14, U25> as $crate::runner::UnitFn),
        ("14x26", $f::<$e, U14, U26> as $crate::runner::UnitFn),
        ("14x27", $f::<$e, U14, U27> as $crate::runner::UnitFn),
        ("14x28", $f::<$e, U14, U28> as $crate::runner::UnitFn),
        ("14x29", $f::<$e, U14, U29> as $crate::runner::UnitFn),
        ("14x30", $f::<$e, U14, U30> as $crate::runner::UnitFn),
        ("14x31", $f::<$e, U14, U31> as $crate::runner::UnitFn),
        ("14x32", $f::<$e, U14, U32> as $crate::runner::UnitFn),
        ("15x0", $f::<$e, U15, U0> as $crate::runner::UnitFn),
        ("15x1", $f::<$e, U15, U1> as $crate::runner::UnitFn),
        ("15x2", $f::<$e, U15, U2> as $crate::runner::UnitFn),
        ("15x3", $f::<$e, U15, U3> as $crate::runner::UnitFn),
        ("15x4", $f::<$e, U15, U4> as $crate::runner::UnitFn),
        ("15x5", $f::<$e, U15, U5> as $crate::runner::UnitFn),
        ("15x6", $f::<$e, U15, U6> as $crate::runner::UnitFn),
        ("15x7", $f::<$e, U15, U7> as $crate::runner::UnitFn),
        ("15x8", $f::<$e, U15, U8> as $crate::runner::UnitFn),
        ("15x9", $f::<$e, U15, U9> as $crate::runner::UnitFn),
        ("15x10", $f::<$e, U15, U10> as $crate::runner::UnitFn),
        ("15x11", $f::<$e, U15, U11> as $crate::runner::UnitFn),
        ("15x12", $f::<$e, U15, U12> as $crate::runner::UnitFn),
        ("15x13", $f::<$e, U15, U13> as $crate::runner::UnitFn),
        ("15x14", $f::<$e, U15, U14> as $crate::runner::UnitFn),
        ("15x15", $f::<$e, U15, U15> as $crate::runner::UnitFn),
        ("15x16", $f::<$e, U15, U16> as $crate::runner::UnitFn),
        ("15x17", $f::<$e, U15, U17> as $crate::runner::UnitFn),
        ("15x18", $f::<$e, U15, U18> as $crate::runner::UnitFn),
        ("15x19", $f::<$e, U15, U19> as $crate::runner::UnitFn),
        ("15x20", $f::<$e, U15, U20> as $crate::runner::UnitFn),
        ("15x21", $f::<$e, U15, U21> as $crate::runner::UnitFn),
        ("15x22", $f::<$e, U15, U22> as $crate::runner::UnitFn),
        ("15x23", $f::<$e, U15, U23> as $crate::runner::UnitFn),
        ("15x24", $f::<$e, U15, U24> as $crate::runner::UnitFn),
        ("15x25", $f::<$e, U15, U25> as $crate::runner::UnitFn),
        ("15x26", $f::<$e, U15, U26> as $crate::runner::UnitFn),
        ("15x27", $f::<$e, U15, U27> as $crate::runner::UnitFn),
        ("15x28", $f::<$e, U15, U28> as $crate::runner::UnitFn),
        ("15x29", $f::<$e, U15, U29> as $crate::runner::UnitFn),
        ("15x30", $f::<$e, U15, U30> as $crate::runner::UnitFn),
        ("15x31", $f::<$e, U15, U31> as $crate::runner::UnitFn),
        ("15x32", $f::<$e, U15, U32> as $crate::runner::UnitFn),
        ("16x0", $f::<$e, U16, U0> as $crate::runner::UnitFn),
        ("16x1", $f::<$e, U16, U1> as $crate::runner::UnitFn),
        ("16x2", $f::<$e, U16, U2> as $crate::runner::UnitFn),
        ("16x3", $f::<$e, U16, U3> as $crate::runner::UnitFn),
        ("16x4", $f::<$e, U16, U4> as $crate::runner::UnitFn),
        ("16x5", $f::<$e, U16, U5> as $crate::runner::UnitFn),
        ("16x6", $f::<$e, U16, U6> as $crate::runner::UnitFn),
        ("16x7", $f::<$e, U16, U7> as $crate::runner::UnitFn),
        ("16x8", $f::<$e, U16, U8> as $crate::runner::UnitFn),
        ("16x9", $f::<$e, U16, U9> as $crate::runner::UnitFn),
        ("16x10", $f::<$e, U16, U10> as $crate::runner::UnitFn),
        ("16x11", $f::<$e, U16, U11> as $crate::runner::UnitFn),
        ("16x12", $f::<$e, U16, U12> as $crate::runner::UnitFn),
        ("16x13", $f::<$e, U16, U13> as $crate::runner::UnitFn),
        ("16x14", $f::<$e, U16, U14> as $crate::runner::UnitFn),
        ("16x15", $f::<$e, U16, U15> as $crate::runner::UnitFn),
        ("16x16", $f::<$e, U16, U16> as $crate::runner::UnitFn),
        ("16x17", $f::<$e, U16, U17> as $crate::runner::UnitFn),
        ("16x18", $f::<$e, U16, U18> as $crate::runner::UnitFn),
        ("16x19", $f::<$e, U16, U19> as $crate::runner::UnitFn),
        ("16x20", $f::<$e, U16, U20> as $crate::runner::UnitFn),
        ("16x21", $f::<$e, U16, U21> as $crate::runner::UnitFn),
        ("16x22", $f::<$e, U16, U22> as $crate::runner::UnitFn),
        ("16x23", $f::<$e, U16, U23> as $crate::runner::UnitFn),
        ("16x24", $f::<$e, U16, U24> as $crate::runner::UnitFn),
        ("16x25", $f::<$e, U16, U25> as $crate::runner::UnitFn),
        ("16x26", $f::<$e, U16, U26> as $crate::runner::UnitFn),
        ("16x27", $f::<$e, U16, U27> as $crate::runner::UnitFn),
        ("16x28", $f::<$e, U16, U28> as $crate::runner::UnitFn),
        ("16x29", $f::<$e, U16, U29> as $crate::runner::UnitFn),
        ("16x30", $f::<$e, U16, U30> as $crate::runner::UnitFn),
        ("16x31", $f::<$e, U16, U31> as $crate::runner::UnitFn),
        ("16x32", $f::<$e, U16, U32> as $crate::runner::UnitFn),
        ("17x0", $f::<$e, U17, U0> as $crate::runner::UnitFn),
        ("17x1", $f::<$e, U17, U1> as $crate::runner::UnitFn),
        ("17x2", $f::<$e, U17, U2> as $crate::runner::UnitFn),
        ("17x3", $f::<$e, U17, U3> as $crate::runner::UnitFn),
        ("17x4", $f::<$e, U17, U4> as $crate::runner::UnitFn),
        ("17x5", $f::<$e, U17, U5> as $crate::runner::UnitFn),
        ("17x6", $f::<$e, U17, U6> as $crate::runner::UnitFn),
        ("17x7", $f::<$e, U17, U7> as $crate::runner::UnitFn),
        ("17x8", $f::<$e, U17, U8> as $crate::runner::UnitFn),
        ("17x9", $f::<$e, U17, U9> as $crate::runner::UnitFn),
        ("17x10", $f::<$e, U17, U10> as $crate::runner::UnitFn),
        ("17x11", $f::<$e, U17, U11> as $crate::runner::UnitFn),
        ("17x12", $f::<$e, U17, U12> as $crate::runner::UnitFn),
        ("17x13", $f::<$e, U17, U13> as $crate::runner::UnitFn),
        ("17x14", $f::<$e, U17, U14> as $crate::runner::UnitFn),
        ("17x15", $f::<$e, U17, U15> as $crate::runner::UnitFn),
        ("17x16", $f::<$e, U17, U16> as $crate::runner::UnitFn),
        ("17x17", $f::<$e, U17, U17> as $crate::runner::UnitFn),
        ("17x18", $f::<$e, U17, U18> as $crate::runner::UnitFn),
        ("17x19", $f::<$e, U17, U19> as $crate::runner::UnitFn),
        ("17x20", $f::<$e, U17, U20> as $crate::runner::UnitFn),
        ("17x21", $f::<$e, U17, U21> as $crate::runner::UnitFn),
        ("17x22", $f::<$e, U17, U22> as $crate::runner::UnitFn),
        ("17x23", $f::<$e, U17, U23> as $crate::runner::UnitFn),
        ("17x24", $f::<$e, U17, U24> as $crate::runner::UnitFn),
        ("17x25", $f::<$e, U17, U25> as $crate::runner::UnitFn),
        ("17x26", $f::<$e, U17, U26> as $crate::runner::UnitFn),
        ("17x27", $f::<$e, U17, U27> as $crate::runner::UnitFn),
        ("17x28", $f::<$e, U17, U28> as $crate::runner::UnitFn),
        ("17x29", $f::<$e, U17, U29> as $crate::runner::UnitFn),
        ("17x30", $f::<$e, U17, U30> as $crate::runner::UnitFn),
        ("17x31", $f::<$e, U17, U31> as $crate::runner::UnitFn),
        ("17x32", $f::<$e, U17, U32> as $crate::runner::UnitFn),
        ("18x0", $f::<$e, U18, U0> as $crate::runner::UnitFn),
        ("18x1", $f::<$e, U18, U1> as $crate::runner::UnitFn),
        ("18x2", $f::<$e, U18, U2> as $crate::runner::UnitFn),
        ("18x3", $f::<$e, U18, U3> as $crate::runner::UnitFn),
        ("18x4", $f::<$e, U18, U4> as $crate::runner::UnitFn),
        ("18x5", $f::<$e, U18, U5> as $crate::runner::UnitFn),
        ("18x6", $f::<$e, U18, U6> as $crate::runner::UnitFn),
        ("18x7", $f::<$e, U18, U7> as $crate::runner::UnitFn),
        ("18x8", $f::<$e, U18, U8> as $crate::runner::UnitFn),
        ("18x9", $f::<$e, U18, U9> as $crate::runner::UnitFn),
        ("18x10", $f::<$e, U18, U10> as $crate::runner::UnitFn),
        ("18x11", $f::<$e, U18, U11> as $crate::runner::UnitFn),
        ("18x12", $f::<$e, U18, U12> as $crate::runner::UnitFn),
        ("18x13", $f::<$e, U18, U13> as $crate::runner::UnitFn),
        ("18x14", $f::<$e, U18, U14> as $crate::runner::UnitFn),
        ("18x15", $f::<$e, U18, U15> as $crate::runner::UnitFn),
        ("18x16", $f::<$e, U18, U16> as $crate::runner::UnitFn),
        ("18x17", $f::<$e, U18, U17> as $crate::runner::UnitFn),
        ("18x18", $f::<$e, U18, U18> as $crate::runner::UnitFn),
        ("18x19", $f::<$e, U18, U19> as $crate::runner::UnitFn),
        ("18x20", $f::<$e, U18, U20> as $crate::runner::UnitFn),
        ("18x21", $f::<$e, U18, U21> as $crate::runner::UnitFn),
        ("18x22", $f::<$e, U18, U22> as $crate::runner::UnitFn),
        ("18x23", $f::<$e, U18, U23> as $crate::runner::UnitFn),
        ("18x24", $f::<$e, U18, U24> as $crate::runner::UnitFn),
        ("18x25", $f::<$e, U18, U25> as $crate::runner::UnitFn),
        ("18x26", $f::<$e, U18, U26> as $crate::runner::UnitFn),
        ("18x27", $f::<$e, U18, U27> as $crate::runner::UnitFn),
        ("18x28", $f::<$e, U18, U28> as $crate::runner::UnitFn),
        ("18x29", $f::<$e, U18, U29> as $crate::runner::UnitFn),
        ("18x30", $f::<$e, U18, U30> as $crate::runner::UnitFn),
        ("18x31", $f::<$e, U18, U31> as $crate::runner::UnitFn),
        ("18x32", $f::<$e, U18, U32> as $crate::runner::UnitFn),
        ("19x0", $f::<$e, U19, U0> as $crate::runner::UnitFn),
        ("19x1", $f::<$e, U19, U1> as $crate::runner::UnitFn),
        ("19x2", $f::<$e, U19, U2> as $crate::runner::UnitFn),
        ("19x3", $f::<$e, U19, U3> as $crate::runner::UnitFn),
        ("19x4", $f::<$e, U19, U4> as $crate::runner::UnitFn),
        ("19x5", $f::<$e, U19, U5> as $crate::runner::UnitFn),
        ("19x6", $f::<$e, U19, U6> as $crate::runner::UnitFn),
        ("19x7", $f::<$e, U19, U7> as $crate::runner::UnitFn),
        ("19x8", $f::<$e, U19, U8> as $crate::runner::UnitFn),
        ("19x9", $f::<$e, U19, U9> as $crate::runner::UnitFn),
        ("19x10", $f::<$e, U19, U10> as $crate::runner::UnitFn),
        ("19x11", $f::<$e, U19, U11> as $crate::runner::UnitFn),
        ("19x12", $f::<$e, U19, U12> as $crate::runner::UnitFn),
        ("19x13", $f::<$e, U19, U13> as $crate::runner::UnitFn),
        ("19x14", $f::<$e, U19, U14> as $crate::runner::UnitFn),
        ("19x15", $f::<$e, U19, U15> as $crate::runner::UnitFn),
        ("19x16", $f::<$e, U19, U16> as $crate::runner::UnitFn),
        ("19x17", $f::<$e, U19, U17> as $crate::runner::UnitFn),
        ("19x18", $f::<$e, U19, U18> as $crate::runner::UnitFn),
        ("19x19", $f::<$e, U19, U19> as $crate::runner::UnitFn),
        ("19x20", $f::<$e, U19, U20> as $crate::runner::UnitFn),
        ("19x21", $f::<$e, U19, U21> as $crate::runner::UnitFn),
        ("19x22", $f::<$e, U19, U22> as $crate::runner::UnitFn),
        ("19x23", $f::<$e, U19, U23> as $crate::runner::UnitFn),
        ("19x24", $f::<$e, U19, U24> as $crate::runner::UnitFn),
        ("19x25", $f::<$e, U19, U25> as $crate::runner::UnitFn),
        ("19x26", $f::<$e, U19, U26> as $crate::runner::UnitFn),
        ("19x27", $f::<$e, U19, U27> as $crate::runner::UnitFn),
        ("19x28", $f::<$e, U19, U28> as $crate::runner::UnitFn),
        ("19x29", $f::<$e, U19, U29> as $crate::runner::UnitFn),
        ("19x30", $f::<$e, U19, U30> as $crate::runner::UnitFn),
        ("19x31", $f::<$e, U19, U31> as $crate::runner::UnitFn),
        ("19x32", $f::<$e, U19, U32> as $crate::runner::UnitFn),
        ("20x0", $f::<$e, U20, U0> as $crate::runner::UnitFn),
        ("20x1", $f::<$e, U20, U1> as $crate::runner::UnitFn),
        ("20x2", $f::<$e, U20, U2> as $crate::runner::UnitFn),
        ("20x3", $f::<$e, U20, U3> as $crate::runner::UnitFn),
        ("20x4", $f::<$e, U20, U4> as $crate::runner::UnitFn),
        ("20x5", $f::<$e, U20, U5> as $crate::runner::UnitFn),
        ("20x6", $f::<$e, U20, U6> as $crate::runner::UnitFn),
        ("20x7", $f::<$e, U20, U7> as $crate::runner::UnitFn),
        ("20x8", $f::<$e, U20, U8> as $crate::runner::UnitFn),
        ("20x9", $f::<$e, U20, U9> as $crate::runner::UnitFn),
        ("20x10", $f::<$e, U20, U10> as $crate::runner::UnitFn),
        ("20x11", $f::<$e, U20, U11> as $crate::runner::UnitFn),
        ("20x12", $f::<$e, U20, U12> as $crate::runner::UnitFn),
        ("20x13", $f::<$e, U20, U13> as $crate::runner::UnitFn),
        ("20x14", $f::<$e, U20, U14> as $crate::runner::UnitFn),
        ("20x15", $f::<$e, U20, U15> as $crate::runner::UnitFn),
        ("20x16", $f::<$e, U20, U16> as $crate::runner::UnitFn),
        ("20x17", $f::<$e, U20, U17> as $crate::runner::UnitFn),
        ("20x18", $f::<$e, U20, U18> as $crate::runner::UnitFn),
        ("20x19", $f::<$e, U20, U19> as $crate::runner::UnitFn),
        ("20x20", $f::<$e, U20, U20> as $crate::runner::UnitFn),
        ("20x21", $f::<$e, U20, U21> as $crate::runner::UnitFn),
        ("20x22", $f::<$e, U20, U22> as $crate::runner::UnitFn),
        ("20x23", $f::<$e, U20, U23> as $crate::runner::UnitFn),
        ("20x24", $f::<$e, U20, U24> as $crate::runner::UnitFn),
        ("20x25", $f::<$e, U20, U25> as $crate::runner::UnitFn),
        ("20x26", $f::<$e, U20, U26> as $crate::runner::UnitFn),
        ("20x27", $f::<$e, U20, U27> as $crate::runner::UnitFn),
        ("20x28", $f::<$e, U20, U28> as $crate::runner::UnitFn),
        ("20x29", $f::<$e, U20, U29> as $crate::runner::UnitFn),
        ("20x30", $f::<$e, U20, U30> as $crate::runner::UnitFn),
        ("20x31", $f::<$e, U20, U31> as $crate::runner::UnitFn),
        ("20x32", $f::<$e, U20, U32> as $crate::runner::UnitFn),
        ("21x0", $f::<$e, U21, U0> as $crate::runner::UnitFn),
        ("21x1", $f::<$e, U21, U1> as $crate::runner::UnitFn),
        ("21x2", $f::<$e, U21, U2> as $crate::runner::UnitFn),
        ("21x3", $f::<$e, U21, U3> as $crate::runner::UnitFn),
        ("21x4", $f::<$e, U21, U4> as $crate::runner::UnitFn),
        ("21x5", $f::<$e, U21, U5> as $crate::runner::UnitFn),
        ("21x6", $f::<$e, U21, U6> as $crate::runner::UnitFn),
        ("21x7", $f::<$e, U21, U7> as $crate::runner::UnitFn),
        ("21x8", $f::<$e, U21, U8> as $crate::runner::UnitFn),
        ("21x9", $f::<$e, U21, U9> as $crate::runner::UnitFn),
        ("21x10", $f::<$e, U21, U10> as $crate::runner::UnitFn),
        ("21x11", $f::<$e, U21, U11> as $crate::runner::UnitFn),
        ("21x12", $f::<$e, U21, U12> as $crate::runner::UnitFn),
        ("21x13", $f::<$e, U21, U13> as $crate::runner::UnitFn),
        ("21x14", $f::<$e, U21, U14> as $crate::runner::UnitFn),
        ("21x15", $f::<$e, U21, U15> as $crate::runner::UnitFn),
        ("21x16", $f::<$e, U21, U16> as $crate::runner::UnitFn),
        ("21x17", $f::<$e, U21, U17> as $crate::runner::UnitFn),
        ("21x18", $f::<$e, U21, U18> as $crate::runner::UnitFn),
        ("21x19", $f::<$e, U21, U19> as $crate::runner::UnitFn),
        ("21x20", $f::<$e, U21, U20> as $crate::runner::UnitFn),
        ("21x21", $f::<$e, U21, U21> as $crate::runner::UnitFn),
        ("21x22", $f::<$e, U21, U22> as $crate::runner::UnitFn),
        ("21x23", $f::<$e, U21, U23> as $crate::runner::UnitFn),
        ("21x24", $f::<$e, U21, U24> as $crate::runner::UnitFn),
        ("21x25", $f::<$e, U21, U25> as $crate::runner::UnitFn),
        ("21x26", $f::<$e, U21, U26> as $crate::runner::UnitFn),
        ("21x27", $f::<$e, U21, U27> as $crate::runner::UnitFn),
        ("21x28", $f::<$e, U21, U28> as $crate::runner::UnitFn),
        ("21x29", $f::<$e, U21, U29> as $crate::runner::UnitFn),
        ("21x30", $f::<$e, U21, U30> as $crate::runner::UnitFn),
        ("21x31", $f::<$e, U21, U31> as $crate::runner::UnitFn),
        ("21x32", $f::<$e, U21, U32> as $crate::runner::UnitFn),
        ("22x0", $f::<$e, U22, U0> as $crate::runner::UnitFn),
        ("22x1", $f::<$e, U22, U1> as $crate::runner::UnitFn),
        ("22x2", $f::<$e, U22, U2> as $crate::runner::UnitFn),
        ("22x3", $f::<$e, U22, U3> as $crate::runner::UnitFn),
        ("22x4", $f::<$e, U22, U4> as $crate::runner::UnitFn),
        ("22x5", $f::<$e, U22, U5> as $crate::runner::UnitFn),
        ("22x6", $f::<$e, U22, U6> as $crate::runner::UnitFn),
        ("22x7", $f::<$e, U22, U7> as $crate::runner::UnitFn),
        ("22x8", $f::<$e, U22, U8> as $crate::runner::UnitFn),
        ("22x9", $f::<$e, U22, U9> as $crate::runner::UnitFn),
        ("22x10", $f::<$e, U22, U10> as $crate::runner::UnitFn),
        ("22x11", $f::<$e, U22, U11> as $crate::runner::UnitFn),
        ("22x12", $f::<$e, U22, U12> as $crate::runner::UnitFn),
        ("22x13", $f::<$e, U22, U13> as $crate::runner::UnitFn),
        ("22x14", $f::<$e, U22, U14> as $crate::runner::UnitFn),
        ("22x15", $f::<$e, U22, U15> as $crate::runner::UnitFn),
        ("22x16", $f::<$e, U22, U16> as $crate::runner::UnitFn),
        ("22x17", $f::<$e, U22, U17> as $crate::runner::UnitFn),
        ("22x18", $f::<$e, U22, U18> as $crate::runner::UnitFn),
        ("22x19", $f::<$e, U22, U19> as $crate::runner::UnitFn),
        ("22x20", $f::<$e, U22, U20> as $crate::runner::UnitFn),
        ("22x21", $f::<$e, U22, U21> as $crate::runner::UnitFn),
        ("22x22", $f::<$e, U22, U22> as $crate::runner::UnitFn),
        ("22x23", $f::<$e, U22, U23> as $crate::runner::UnitFn),
        ("22x24", $f::<$e, U22, U24> as $crate::runner::UnitFn),
        ("22x25", $f::<$e, U22, U25> as $crate::runner::UnitFn),
        ("22x26", $f::<$e, U22, U26> as $crate::runner::UnitFn),
        ("22x27", $f::<$e, U22, U27> as $crate::runner::UnitFn),
        ("22x28", $f::<$e, U22, U28> as $crate::runner::UnitFn),
        ("22x29", $f::<$e, U22, U29> as $crate::runner::UnitFn),
        ("22x30", $f::<$e, U22, U30> as $crate::runner::UnitFn),
        ("22x31", $f::<$e, U22, U31> as $crate::runner::UnitFn),
        ("22x32", $f::<$e, U22, U32> as $crate::runner::UnitFn),
        ("23x0", $f::<$e, U23, U0> as $crate::runner::UnitFn),
        ("23x1", $f::<$e, U23, U1> as $crate::runner::UnitFn),
        ("23x2", $f::<$e, U23, U2> as $crate::runner::UnitFn),
        ("23x3", $f::<$e, U23, U3> as $crate::runner::UnitFn),
        ("23x4", $f::<$e, U23, U4> as $crate::runner::UnitFn),
        ("23x5", $f::<$e, U23, U5> as $crate::runner::UnitFn),
        ("23x6", $f::<$e, U23, U6> as $crate::runner::UnitFn),
        ("23x7", $f::<$e, U23, U7> as $crate::runner::UnitFn),
        ("23x8", $f::<$e, U23, U8> as $crate::runner::UnitFn),
        ("23x9", $f::<$e, U23, U9> as $crate::runner::UnitFn),
        ("23x10", $f::<$e, U23, U10> as $crate::runner::UnitFn),
        ("23x11", $f::<$e, U23, U11> as $crate::runner::UnitFn),
        ("23x12", $f::<$e, U23, U12> as $crate::runner::UnitFn),
        ("23x13", $f::<$e, U23, U13> as $crate::runner::UnitFn),
        ("23x14", $f::<$e, U23, U14> as $crate::runner::UnitFn),
        ("23x15", $f::<$e, U23, U15> as $crate::runner::UnitFn),
        ("23x16", $f::<$e, U23, U16> as $crate::runner::UnitFn),
        ("23x17", $f::<$e, U23, U17> as $crate::runner::UnitFn),
        ("23x18", $f::<$e, U23, U18> as $crate::runner::UnitFn),
        ("23x19", $f::<$e, U23, U19> as $crate::runner::UnitFn),
        ("23x20", $f::<$e, U23, U20> as $crate::runner::UnitFn),
        ("23x21", $f::<$e, U23, U21> as $crate::runner::UnitFn),
        ("23x22", $f::<$e, U23, U22> as $crate::runner::UnitFn),
        ("23x23", $f::<$e, U23, U23> as $crate::runner::UnitFn),
        ("23x24", $f::<$e, U23, U24> as $crate::runner::UnitFn),
        ("23x25", $f::<$e, U23, U25> as $crate::runner::UnitFn),
        ("23x26", $f::<$e, U23, U26> as $crate::runner::UnitFn),
        ("23x27", $f::<$e, U23, U27> as $crate::runner::UnitFn),
        ("23x28", $f::<$e, U23, U28> as $crate::runner::UnitFn),
        ("23x29", $f::<$e, U23, U29> as $crate::runner::UnitFn),
        ("23x30", $f::<$e, U23, U30> as $crate::runner::UnitFn),
        ("23x31", $f::<$e, U23, U31> as $crate::runner::UnitFn),
        ("23x32", $f::<$e, U23, U32> as $crate::runner::UnitFn),
        ("24x0", $f::<$e, U24, U0> as $crate::runner::UnitFn),
        ("24x1", $f::<$e, U24, U1> as $crate::runner::UnitFn),
        ("24x2", $f::<$e, U24, U2> as $crate::runner::UnitFn),
        ("24x3", $f::<$e, U24, U3> as $crate::runner::UnitFn),
        ("24x4", $f::<$e, U24, U4> as $crate::runner::UnitFn),
        ("24x5", $f::<$e, U24, U5> as $crate::runner::UnitFn),
        ("24x6", $f::<$e, U24, U6> as $crate::runner::UnitFn),
        ("24x7", $f::<$e, U24, U7> as $crate::runner::UnitFn),
        ("24x8", $f::<$e, U24, U8> as $crate::runner::UnitFn),
        ("24x9", $f::<$e, U24, U9> as $crate::runner::UnitFn),
        ("24x10", $f::<$e, U24, U10> as $crate::runner::UnitFn),
        ("24x11", $f::<$e, U24, U11> as $crate::runner::UnitFn),
        ("24x12", $f::<$e, U24, U12> as $crate::runner::UnitFn),
        ("24x13", $f::<$e, U24, U13> as $crate::runner::UnitFn),
        ("24x14", $f::<$e, U24, U14> as $crate::runner::UnitFn),
        ("24x15", $f::<$e, U24, U15> as $crate::runner::UnitFn),
        ("24x16", $f::<$e, U24, U16> as $crate::runner::UnitFn),
        ("24x17", $f::<$e, U24, U17> as $crate::runner::UnitFn),
        ("24x18", $f::<$e, U24, U18> as $crate::runner::UnitFn),
        ("24x19", $f::<$e, U24, U19> as $crate::runner::UnitFn),
        ("24x20", $f::<$e, U24, U20> as $crate::runner::UnitFn),
        ("24x21", $f::<$e, U24, U21> as $crate::runner::UnitFn),
        ("24x22", $f::<$e, U24, U22> as $crate::runner::UnitFn),
        ("24x23", $f::<$e, U24, U23> as $crate::runner::UnitFn),
        ("24x24", $f::<$e, U24, U24> as $crate::runner::UnitFn),
        ("24x25", $f::<$e, U24, U25> as $crate::runner::UnitFn),
        ("24x26", $f::<$e, U24, U26> as $crate::runner::UnitFn),
        ("24x27", $f::<$e, U24, U27> as $crate::runner::UnitFn),
        ("24x28", $f::<$e, U24, U28> as $crate::runner::UnitFn),
        ("24x29", $f::<$e, U24, U29> as $crate::runner::UnitFn),
        ("24x30", $f::<$e, U24, U30> as $crate::runner::UnitFn),
        ("24x31", $f::<$e, U24, U31> as $crate::runner::UnitFn),
        ("24x32", $f::<$e, U24, U32> as $crate::runner::UnitFn),
        ("25x0", $f::<$e, U25, U0> as $crate::runner::UnitFn),
        ("25x1", $f::<$e, U25, U1> as $crate::runner::UnitFn),
        ("25x2", $f::<$e, U25, U2> as $crate::runner::UnitFn),
        ("25x3", $f::<$e, U25, U3> as $crate::runner::UnitFn),
        ("25x4", $f::<$e, U25, U4> as $crate::runner::UnitFn),
        ("25x5", $f::<$e, U25, U5> as $crate::runner::UnitFn),
        ("25x6", $f::<$e, U25, U6> as $crate::runner::UnitFn),
        ("25x7", $f::<$e, U25, U7> as $crate::runner::UnitFn),
        ("25x8", $f::<$e, U25, U8> as $crate::runner::UnitFn),
        ("25x9", $f::<$e, U25, U9> as $crate::runner::UnitFn),
        ("25x10", $f::<$e, U25, U10> as $crate::runner::UnitFn),
        ("25x11", $f::<$e, U25, U11> as $crate::runner::UnitFn),
        ("25x12", $f::<$e, U25, U12> as $crate::runner::UnitFn),
        ("25x13", $f::<$e, U25, U13> as $crate::runner::UnitFn),
        ("25x14", $f::<$e, U25, U14> as $crate::runner::UnitFn),
        ("25x15", $f::<$e, U25, U15> as $crate::runner::UnitFn),
        ("25x16", $f::<$e, U25, U16> as $crate::runner::UnitFn),
        ("25x17", $f::<$e, U25, U17> as $crate::runner::UnitFn),
        ("25x18", $f::<$e, U25, U18> as $crate::runner::UnitFn),
        ("25x19", $f::<$e, U25, U19> as $crate::runner::UnitFn),
        ("25x20", $f::<$e, U25, U20> as $crate::runner::UnitFn),
        ("25x21", $f::<$e, U25, U21> as $crate::runner::UnitFn),
        ("25x22", $f::<$e, U25, U22> as $crate::runner::UnitFn),
        ("25x23", $f::<$e, U25, U23> as $crate::runner::UnitFn),
        ("25x24", $f::<$e, U25, U24> as $crate::runner::UnitFn),
        ("25x25", $f::<$e, U25, U25> as $crate::runner::UnitFn),
        ("25x26", $f::<$e, U25, U26> as $crate::runner::UnitFn),
        ("25x27", $f::<$e, U25, U27> as $crate::runner::UnitFn),
        ("25x28", $f::<$e, U25, U28> as $crate::runner::UnitFn),
        ("25x29", $f::<$e, U25, U29> as $crate::runner::UnitFn),
        ("25x30", $f::<$e, U25, U30> as $crate::runner::UnitFn),
        ("25x31", $f::<$e, U25, U31> as $crate::runner::UnitFn),
        ("25x32", $f::<$e, U25, U32> as $crate::runner::UnitFn),
        ("26x0", $f::<$e, U26, U0> as $crate::runner::UnitFn),
        ("26x1", $f::<$e, U26, U1> as $crate::runner::UnitFn),
        ("26x2", $f::<$e, U26, U2> as $crate::runner::UnitFn),
        ("26x3", $f::<$e, U26, U3> as $crate::runner::UnitFn),
        ("26x4", $f::<$e, U26, U4> as $crate::runner::UnitFn),
        ("26x5", $f::<$e, U26, U5> as $crate::runner::UnitFn),
        ("26x6", $f::<$e, U26, U6> as $crate::runner::UnitFn),
        ("26x7", $f::<$e, U26, U7> as $crate::runner::UnitFn),
        ("26x8", $f::<$e, U26, U8> as $crate::runner::UnitFn),
        ("26x9", $f::<$e, U26, U9> as $crate::runner::UnitFn),
        ("26x10", $f::<$e, U26, U10> as $crate::runner::UnitFn),
        ("26x11", $f::<$e, U26, U11> as $crate::runner::UnitFn),
        ("26x12", $f::<$e, U26, U12> as $crate::runner::UnitFn),
        ("26x13", $f::<$e, U26, U13> as $crate::runner::UnitFn),
        ("26x14", $f::<$e, U26, U14> as $crate::runner::UnitFn),
        ("26x15", $f::<$e, U26, U15> as $crate::runner::UnitFn),
        ("26x16", $f::<$e, U26, U16> as $crate::runner::UnitFn),
        ("26x17", $f::<$e, U26, U17> as $crate::runner::UnitFn),
        ("26x18", $f::<$e, U26, U18> as $crate::runner::UnitFn),
        ("26x19", $f::<$e, U26, U19> as $crate::runner::UnitFn),
        ("26x20", $f::<$e, U26, U20> as $crate::runner::UnitFn),
        ("26x21", $f::<$e, U26, U21> as $crate::runner::UnitFn),
        ("26x22", $f::<$e, U26, U22> as $crate::runner::UnitFn),
        ("26x23", $f::<$e, U26, U23> as $crate::runner::UnitFn),
        ("26x24", $f::<$e, U26, U24> as $crate::runner::UnitFn),
        ("26x25", $f::<$e, U26, U25> as $crate::runner::UnitFn),
        ("26x26", $f::<$e, U26, U26> as $crate::runner::UnitFn),
        ("26x27", $f::<$e, U26, U27> as $crate::runner::UnitFn),
        ("26x28", $f::<$e, U26, U28> as $crate::runner::UnitFn),
        ("26x29", $f::<$e, U26, U29> as $crate::runner::UnitFn),
        ("26x30", $f::<$e, U26, U30> as $crate::runner::UnitFn),
        ("26x31", $f::<$e, U26, U31> as $crate::runner::UnitFn),
        ("26x32", $f::<$e, U26, U32> as $crate::runner::UnitFn),
        ("27x0", $f::<$e, U27, U0> as $crate::runner::UnitFn),
        ("27x1", $f::<$e, U27, U1> as $crate::runner::UnitFn),
        ("27x2", $f::<$e, U27, U2> as $crate::runner::UnitFn),
        ("27x3", $f::<$e, U27, U3> as $crate::runner::UnitFn),
        ("27x4", $f::<$e, U27, U4> as $crate::runner::UnitFn),
        ("27x5", $f::<$e, U27, U5> as $crate::runner::UnitFn),
        ("27x6", $f::<$e, U27, U6> as $crate::runner::UnitFn),
        ("27x7", $f::<$e, U27, U7> as $crate::runner::UnitFn),
        ("27x8", $f::<$e, U27, U8> as $crate::runner::UnitFn),
        ("27x9", $f::<$e, U27, U9> as $crate::runner::UnitFn),
        ("27x10", $f::<$e, U27, U10> as $crate::runner::UnitFn),
        ("27x11", $f::<$e, U27, U11> as $crate::runner::UnitFn),
        ("27x12", $f::<$e, U27, U12> as $crate::runner::UnitFn),
        ("27x13", $f::<$e, U27, U13> as $crate::runner::UnitFn),
        ("27x14", $f::<$e, U27, U14> as $crate::runner::UnitFn),
        ("27x15", $f::<$e, U27, U15> as $crate::runner::UnitFn),
        ("27x16", $f::<$e, U27, U16> as $crate::runner::UnitFn),
        ("27x17", $f::<$e, U27, U17> as $crate::runner::UnitFn),
        ("27x18", $f::<$e, U27, U18> as $crate::runner::UnitFn),
        ("27x19", $f::<$e, U27, U19> as $crate::runner::UnitFn),
        ("27x20", $f::<$e, U27, U20> as $crate::runner::UnitFn),
        ("27x21", $f::<$e, U27, U21> as $crate::runner::UnitFn),
        ("27x22", $f::<$e, U27, U22> as $crate::runner::UnitFn),
        ("27x23", $f::<$e, U27, U23> as $crate::runner::UnitFn),
        ("27x24", $f::<$e, U27, U24> as $crate::runner::UnitFn),
        ("27x25", $f::<$e, U27, U25> as $crate::runner::UnitFn),
        ("27x26", $f::<$e, U27, U26> as $crate::runner::UnitFn),
        ("27x27", $f::<$e, U27, U27> as $crate::runner::UnitFn),
        ("27x28", $f::<$e, U27, U28> as $crate::runner::UnitFn),
        ("27x29", $f::<$e, U27, U29> as $crate::runner::UnitFn),
        ("27x30", $f::<$e, U27, U30> as $crate::runner::UnitFn),
        ("27x31", $f::<$e, U27, U31> as $crate::runner::UnitFn),
        ("27x32", $f::<$e, U27, U32> as $crate::runner::UnitFn),
        ("28x0", $f::<$e, U28, U0> as $crate::runner::UnitFn),
        ("28x1", $f::<$e, U28, U1> as $crate::runner::UnitFn),
        ("28x2", $f::<$e, U28, U2> as $crate::runner::UnitFn),
        ("28x3", $f::<$e, U28, U3> as $crate::runner::UnitFn),
        ("28x4", $f::<$e, U28, U4> as $crate::runner::UnitFn),
        ("28x5", $f::<$e, U28, U5> as $crate::runner::UnitFn),
        ("28x6", $f::<$e, U28, U6> as $crate::runner::UnitFn),
        ("28x7", $f::<$e, U28, U7> as $crate::runner::UnitFn),
        ("28x8", $f::<$e, U28, U8> as $crate::runner::UnitFn),
        ("28x9", $f::<$e, U28, U9> as $crate::runner::UnitFn),
        ("28x10", $f::<$e, U28, U10> as $crate::runner::UnitFn),
        ("28x11", $f::<$e, U28, U11> as $crate::runner::UnitFn),
        ("28x12", $f::<$e, U28, U12> as $crate::runner::UnitFn),
        ("28x13", $f::<$e, U28, U13> as $crate::runner::UnitFn),
        ("28x14", $f::<$e, U28, U14> as $crate::runner::UnitFn),
        ("28x15", $f::<$e, U28, U15> as $crate::runner::UnitFn),
        ("28x16", $f::<$e, U28, U16> as $crate::runner::UnitFn),
        ("28x17", $f::<$e, U28, U17> as $crate::runner::UnitFn),
        ("28x18", $f::<$e, U28, U18> as $crate::runner::UnitFn),
        ("28x19", $f::<$e, U28, U19> as $crate::runner::UnitFn),
        ("28x20", $f::<$e, U28, U20> as $crate::runner::UnitFn),
        ("28x21", $f::<$e, U28, U21> as $crate::runner::UnitFn),
        ("28x22", $f::<$e, U28, U22> as $crate::runner::UnitFn),
        ("28x23", $f::<$e, U28, U23> as $crate::runner::UnitFn),
        ("28x24", $f::<$e, U28, U24> as $crate::runner::UnitFn),
        ("28x25", $f::<$e, U28, U25> as $crate::runner::UnitFn),
        ("28x26", $f::<$e, U28, U26> as $crate::runner::UnitFn),
        ("28x27", $f::<$e, U28, U27> as $crate::runner::UnitFn),
        ("28x28", $f::<$e, U28, U28> as $crate::runner::UnitFn),
        ("28x29", $f::<$e, U28, U29> as $crate::runner::UnitFn),
        ("28x30", $f::<$e, U28, U30> as $crate::runner::UnitFn),
        ("28x31", $f::<$e, U28, U31> as $crate::runner::UnitFn),
        ("28x32", $f::<$e, U28, U32> as $crate::runner::UnitFn),
        ("29x0", $f::<$e, U29, U0> as $crate::runner::UnitFn),
        ("29x1", $f::<$e, U29, U1> as $crate::runner::UnitFn),
        ("29x2", $f::<$e, U29, U2> as $crate::runner::UnitFn),
        ("29x3", $f::<$e, U29, U3> as $crate::runner::UnitFn),
        ("29x4", $f::<$e, U29, U4> as $crate::runner::UnitFn),
        ("29x5", $f::<$e, U29, U5> as $crate::runner::UnitFn),
        ("29x6", $f::<$e, U29, U6> as $crate::runner::UnitFn),
        ("29x7", $f::<$e, U29, U7> as $crate::runner::UnitFn),
        ("29x8", $f::<$e, U29, U8> as $crate::runner::UnitFn),
        ("29x9", $f::<$e, U29, U9> as $crate::runner::UnitFn),
        ("29x10", $f::<$e, U29, U10> as $crate::runner::UnitFn),
        ("29x11", $f::<$e, U29, U11> as $crate::runner::UnitFn),
        ("29x12", $f::<$e, U29, U12> as $crate::runner::UnitFn),
        ("29x13", $f::<$e, U29, U13> as $crate::runner::UnitFn),
        ("29x14", $f::<$e, U29, U14> as $crate::runner::UnitFn),
        ("29x15", $f::<$e, U29, U15> as $crate::runner::UnitFn),
        ("29x16", $f::<$e, U29, U16> as $crate::runner::UnitFn),
        ("29x17", $f::<$e, U29, U17> as $crate::runner::UnitFn),
        ("29x18", $f::<$e, U29, U18> as $crate::runner::UnitFn),
        ("29x19", $f::<$e, U29, U19> as $crate::runner::UnitFn),
        ("29x20", $f::<$e, U29, U20> as $crate::runner::UnitFn),
        ("29x21", $f::<$e, U29, U21> as $crate::runner::UnitFn),
        ("29x22", $f::<$e, U29, U22> as $crate::runner::UnitFn),
        ("29x23", $f::<$e, U29, U23> as $crate::runner::UnitFn),
        ("29x24", $f::<$e, U29, U24> as $crate::runner::UnitFn),
        ("29x25", $f::<$e, U29, U25> as $crate::runner::UnitFn),
        ("29x26", $f::<$e, U29, U26> as $crate::runner::UnitFn),
        ("29x27", $f::<$e, U29, U27> as $crate::runner::UnitFn),
        ("29x28", $f::<$e, U29, U28> as $crate::runner::UnitFn),
        ("29x29", $f::<$e, U29, U29> as $crate::runner::UnitFn),
        ("29x30", $f::<$e, U29, U30> as $crate::runner::UnitFn),
        ("29x31", $f::<$e, U29, U31> as $crate::runner::UnitFn),
        ("29x32", $f::<$e, U29, U32> as $crate::runner::UnitFn),
        ("30x0", $f::<$e, U30, U0> as $crate::runner::UnitFn),
        ("30x1", $f::<$e, U30, U1> as $crate::runner::UnitFn),
        ("30x2", $f::<$e, U30, U2> as $crate::runner::UnitFn),
        ("30x3", $f::<$e, U30, U3> as $crate::runner::UnitFn),
        ("30x4", $f::<$e, U30, U4> as $crate::runner::UnitFn),
        ("30x5", $f::<$e, U30, U5> as $crate::runner::UnitFn),
        ("30x6", $f::<$e, U30, U6> as $crate::runner::UnitFn),
        ("30x7", $f::<$e, U30, U7> as $crate::runner::UnitFn),
        ("30x8", $f::<$e, U30, U8> as $crate::runner::UnitFn),
        ("30x9", $f::<$e, U30, U9> as $crate::runner::UnitFn),
        ("30x10", $f::<$e, U30, U10> as $crate::runner::UnitFn),
        ("30x11", $f::<$e, U30, U11> as $crate::runner::UnitFn),
        ("30x12", $f::<$e, U30, U12> as $crate::runner::UnitFn),
        ("30x13", $f::<$e, U30, U13> as $crate::runner::UnitFn),
        ("30x14", $f::<$e, U30, U14> as $crate::runner::UnitFn),
        ("30x15", $f::<$e, U30, U15> as $crate::runner::UnitFn),
        ("30x16", $f::<$e, U30, U16> as $crate::runner::UnitFn),
        ("30x17", $f::<$e, U30, U17> as $crate::runner::UnitFn),
        ("30x18", $f::<$e, U30, U18> as $crate::runner::UnitFn),
        ("30x19", $f::<$e, U30, U19> as $crate::runner::UnitFn),
        ("30x20", $f::<$e, U30, U20> as $crate::runner::UnitFn),
        ("30x21", $f::<$e, U30, U21> as $crate::runner::UnitFn),
        ("30x22", $f::<$e, U30, U22> as $crate::runner::UnitFn),
        ("30x23", $f::<$e, U30, U23> as $crate::runner::UnitFn),
        ("30x24", $f::<$e, U30, U24> as $crate::runner::UnitFn),
        ("30x25", $f::<$e, U30, U25> as $crate::runner::UnitFn),
        ("30x26", $f::<$e, U30, U26> as $crate::runner::UnitFn),
        ("30x27", $f::<$e, U30, U27> as $crate::runner::UnitFn),
        ("30x28", $f::<$e, U30, U28> as $crate::runner::UnitFn),
        ("30x29", $f::<$e, U30, U29> as $crate::runner::UnitFn),
        ("30x30", $f::<$e, U30, U30> as $crate::runner::UnitFn),
        ("30x31", $f::<$e, U30, U31> as $crate::runner::UnitFn),
        ("30x32", $f::<$e, U30, U32> as $crate::runner::UnitFn),
        ("31x0", $f::<$e, U31, U0> as $crate::runner::UnitFn),
        ("31x1", $f::<$e, U31, U1> as $crate::runner::UnitFn),
        ("31x2", $f::<$e, U31, U2> as $crate::runner::UnitFn),
        ("31x3", $f::<$e, U31, U3> as $crate::runner::UnitFn),
        ("31x4", $f::<$e, U31, U4> as $crate::runner::UnitFn),
        ("31x5", $f::<$e, U31, U5> as $crate::runner::UnitFn),
        ("31x6", $f::<$e, U31, U6> as $crate::runner::UnitFn),
        ("31x7", $f::<$e, U31, U7> as $crate::runner::UnitFn),
        ("31x8", $f::<$e, U31, U8> as $crate::runner::UnitFn),
        ("31x9", $f::<$e, U31, U9> as $crate::runner::UnitFn),
        ("31x10", $f::<$e, U31, U10> as $crate::runner::UnitFn),
        ("31x11", $f::<$e, U31, U11> as $crate::runner::UnitFn),
        ("31x12", $f::<$e, U31, U12> as $crate::runner::UnitFn),
        ("31x13", $f::<$e, U31, U13> as $crate::runner::UnitFn),
        ("31x14", $f::<$e, U31, U14> as $crate::runner::UnitFn),
        ("31x15", $f::<$e, U31, U15> as $crate::runner::UnitFn),
        ("31x16", $f::<$e, U31, U16> as $crate::runner::UnitFn),
        ("31x17", $f::<$e, U31, U17> as $crate::runner::UnitFn),
        ("31x18", $f::<$e, U31, U18> as $crate::runner::UnitFn),
        ("31x19", $f::<$e, U31, U19> as $crate::runner::UnitFn),
        ("31x20", $f::<$e, U31, U20> as $crate::runner::UnitFn),
        ("31x21", $f::<$e, U31, U21> as $crate::runner::UnitFn),
        ("31x22", $f::<$e, U31, U22> as $crate::runner::UnitFn),
        ("31x23", $f::<$e, U31, U23> as $crate::runner::UnitFn),
        ("31x24", $f::<$e, U31, U24> as $crate::runner::UnitFn),
        ("31x25", $f::<$e, U31, U25> as $crate::runner::UnitFn),
        ("31x26", $f::<$e, U31, U26> as $crate::runner::UnitFn),
        ("31x27", $f::<$e, U31, U27> as $crate::runner::UnitFn),
        ("31x28", $f::<$e, U31, U28> as $crate::runner::UnitFn),
        ("31x29", $f::<$e, U31, U29> as $crate::runner::UnitFn),
        ("31x30", $f::<$e, U31, U30> as $crate::runner::UnitFn),
        ("31x31", $f::<$e, U31, U31> as $crate::runner::UnitFn),
        ("31x32", $f::<$e, U31, U32> as $crate::runner::UnitFn),
        ("32x0", $f::<$e, U32, U0> as $crate::runner::UnitFn),
        ("32x1", $f::<$e, U32, U1> as $crate::runner::UnitFn),
        ("32x2", $f::<$e, U32, U2> as $crate::runner::UnitFn),
        ("32x3", $f::<$e, U32, U3> as $crate::runner::UnitFn),
        ("32x4", $f::<$e, U32, U4> as $crate::runner::UnitFn),
        ("32x5", $f::<$e, U32, U5> as $crate::runner::UnitFn),
        ("32x6", $f::<$e, U32, U6> as $crate::runner::UnitFn),
        ("32x7", $f::<$e, U32, U7> as $crate::runner::UnitFn),
        ("32x8", $f::<$e, U32, U8> as $crate::runner::UnitFn),
        ("32x9", $f::<$e, U32, U9> as $crate::runner::UnitFn),
        ("32x10", $f::<$e, U32, U10> as $crate::runner::UnitFn),
        ("32x11", $f::<$e, U32, U11> as $crate::runner::UnitFn),
        ("32x12", $f::<$e, U32, U12> as $crate::runner::UnitFn),
        ("32x13", $f::<$e, U32, U13> as $crate::runner::UnitFn),
        ("32x14", $f::<$e, U32, U14> as $crate::runner::UnitFn),
        ("32x15", $f::<$e, U32, U15> as $crate::runner::UnitFn),
        ("32x16", $f::<$e, U32, U16> as $crate::runner::UnitFn),
        ("32x17", $f::<$e, U32, U17> as $crate::runner::UnitFn),
        ("32x18", $f::<$e, U32, U18> as $crate::runner::UnitFn),
        ("32x19", $f::<$e, U32, U19> as $crate::runner::UnitFn),
        ("32x20", $f::<$e, U32, U20> as $crate::runner::UnitFn),
        ("32x21", $f::<$e, U32, U21> as $crate::runner::UnitFn),
        ("32x22", $f::<$e, U32, U22> as $crate::runner::UnitFn),
        ("32x23", $f::<$e, U32, U23> as $crate::runner::UnitFn),
        ("32x24", $f::<$e, U32, U24> as $crate::runner::UnitFn),
        ("32x25", $f::<$e, U32, U25> as $crate::runner::UnitFn),
        ("32x26", $f::<$e, U32, U26> as $crate::runner::UnitFn),
        ("32x27", $f::<$e, U32, U27> as $crate::runner::UnitFn),
        ("32x28", $f::<$e, U32, U28> as $crate::runner::UnitFn),
        ("32x29", $f::<$e, U32, U29> as $crate::runner::UnitFn),
        ("32x30", $f::<$e, U32, U30> as $crate::runner::UnitFn),
        ("32x31", $f::<$e, U32, U31> as $crate::runner::UnitFn),
        ("32x32", $f::<$e, U32, U32> as $crate::runner::UnitFn),
    ] };
}

/// triples covering all pairs of coordinates (Latin square)
#[macro_export]
macro_rules! dims_triples {
    ($f:ident) => { &[
        ("0x0x0", $f::<U0, U0, U0> as $crate::runner::UnitFn),
        ("0x1x1", $f::<U0, U1, U1> as $crate::runner::UnitFn),
        ("0x2x2", $f::<U0, U2, U2> as $crate::runner::UnitFn),
        ("0x3x3", $f::<U0, U3, U3> as $crate::runner::UnitFn),
        ("0x4x4", $f::<U0, U4, U4> as $crate::runner::UnitFn),
        ("0x5x5", $f::<U0, U5, U5> as $crate::runner::UnitFn),
        ("0x6x6", $f::<U0, U6, U6> as $crate::runner::UnitFn),
        ("0x7x7", $f::<U0, U7, U7> as $crate::runner::UnitFn),
        ("0x8x8", $f::<U0, U8, U8> as $crate::runner::UnitFn),
        ("0x9x9", $f::<U0, U9, U9> as $crate::runner::UnitFn),
        ("0x10x10", $f::<U0, U10, U10> as $crate::runner::UnitFn),
        ("0x11x11", $f::<U0, U11, U11> as $crate::runner::UnitFn),
        ("0x12x12", $f::<U0, U12, U12> as $crate::runner::UnitFn),
        ("0x13x13", $f::<U0, U13, U13> as $crate::runner::UnitFn),
        ("0x14x14", $f::<U0, U14, U14> as $crate::runner::UnitFn),
        ("0x15x15", $f::<U0, U15, U15> as $crate::runner::UnitFn),
        ("0x16x16", $f::<U0, U16, U16> as $crate::runner::UnitFn),
        ("0x17x17", $f::<U0, U17, U17> as $crate::runner::UnitFn),
        ("0x18x18", $f::<U0, U18, U18> as $crate::runner::UnitFn),
        ("0x19x19", $f::<U0, U19, U19> as $crate::runner::UnitFn),
        ("0x20x20", $f::<U0, U20, U20> as $crate::runner::UnitFn),
        ("0x21x21", $f::<U0, U21, U21> as $crate::runner::UnitFn),
        ("0x22x22", $f::<U0, U22, U22> as $crate::runner::UnitFn),
        ("0x23x23", $f::<U0, U23, U23> as $crate::runner::UnitFn),
        ("0x24x24", $f::<U0, U24, U24> as $crate::runner::UnitFn),
        ("0x25x25", $f::<U0, U25, U25> as $crate::runner::UnitFn),
        ("0x26x26", $f::<U0, U26, U26> as $crate::runner::UnitFn),
        ("0x27x27", $f::<U0, U27, U27> as $crate::runner::UnitFn),
        ("0x28x28", $f::<U0, U28, U28> as $crate::runner::UnitFn),
        ("0x29x29", $f::<U0, U29, U29> as $crate::runner::UnitFn),
        ("0x30x30", $f::<U0, U30, U30> as $crate::runner::UnitFn),
        ("0x31x31", $f::<U0, U31, U31> as $crate::runner::UnitFn),
        ("0x32x32", $f::<U0, U32, U32> as $crate::runner::UnitFn),
        ("1x0x1", $f::<U1, U0, U1> as $crate::runner::UnitFn),
        ("1x1x2", $f::<U1, U1, U2> as $crate::runner::UnitFn),
        ("1x2x3", $f::<U1, U2, U3> as $crate::runner::UnitFn),
        ("1x3x4", $f::<U1, U3, U4> as $crate::runner::UnitFn),
        ("1x4x5", $f::<U1, U4, U5> as $crate::runner::UnitFn),
        ("1x5x6", $f::<U1, U5, U6> as $crate::runner::UnitFn),
        ("1x6x7", $f::<U1, U6, U7> as $crate::runner::UnitFn),
        ("1x7x8", $f::<U1, U7, U8> as $crate::runner::UnitFn),
        ("1x8x9", $f::<U1, U8, U9> as $crate::runner::UnitFn),
        ("1x9x10", $f::<U1, U9, U10> as $crate::runner::UnitFn),
        ("1x10x11", $f::<U1, U10, U11> as $crate::runner::UnitFn),
        ("1x11x12", $f::<U1, U11, U12> as $crate::runner::UnitFn),
        ("1x12x13", $f::<U1, U12, U13> as $crate::runner::UnitFn),
        ("1x13x14", $f::<U1, U13, U14> as $crate::runner::UnitFn),
        ("1x14x15", $f::<U1, U14, U15> as $crate::runner::UnitFn),
        ("1x15x16", $f::<U1, U15, U16> as $crate::runner::UnitFn),
        ("1x16x17", $f::<U1, U16, U17> as $crate::runner::UnitFn),
        ("1x17x18", $f::<U1, U17, U18> as $crate::runner::UnitFn),
        ("1x18x19", $f::<U1, U18, U19> as $crate::runner::UnitFn),
        ("1x19x20", $f::<U1, U19, U20> as $crate::runner::UnitFn),
        ("1x20x21", $f::<U1, U20, U21> as $crate::runner::UnitFn),
        ("1x21x22", $f::<U1, U21, U22> as $crate::runner::UnitFn),
        ("1x22x23", $f::<U1, U22, U23> as $crate::runner::UnitFn),
        ("1x23x24", $f::<U1, U23, U24> as $crate::runner::UnitFn),
        ("1x24x25", $f::<U1, U24, U25> as $crate::runner::UnitFn),
        ("1x25x26", $f::<U1, U25, U26> as $crate::runner::UnitFn),
        ("1x26x27", $f::<U1, U26, U27> as $crate::runner::UnitFn),
        ("1x27x28", $f::<U1, U27, U28> as $crate::runner::UnitFn),
        ("1x28x29", $f::<U1, U28, U29> as $crate::runner::UnitFn),
        ("1x29x30", $f::<U1, U29, U30> as $crate::runner::UnitFn),
        ("1x30x31", $f::<U1, U30, U31> as $crate::runner::UnitFn),
        ("1x31x32", $f::<U1, U31, U32> as $crate::runner::UnitFn),
        ("1x32x0", $f::<U1, U32, U0> as $crate::runner::UnitFn),
        ("2x0x2", $f::<U2, U0, U2> as $crate::runner::UnitFn),
        ("2x1x3", $f::<U2, U1, U3> as $crate::runner::UnitFn),
        ("2x2x4", $f::<U2, U2, U4> as $crate::runner::UnitFn),
        ("2x3x5", $f::<U2, U3, U5> as $crate::runner::UnitFn),
        ("2x4x6", $f::<U2, U4, U6> as $crate::runner::UnitFn),
        ("2x5x7", $f::<U2, U5, U7> as $crate::runner::UnitFn),
        ("2x6x8", $f::<U2, U6, U8> as $crate::runner::UnitFn),
        ("2x7x9", $f::<U2, U7, U9> as $crate::runner::UnitFn),
        ("2x8x10", $f::<U2, U8, U10> as $crate::runner::UnitFn),
        ("2x9x11", $f::<U2, U9, U11> as $crate::runner::UnitFn),
        ("2x10x12", $f::<U2, U10, U12> as $crate::runner::UnitFn),
        ("2x11x13", $f::<U2, U11, U13> as $crate::runner::UnitFn),
        ("2x12x14", $f::<U2, U12, U14> as $crate::runner::UnitFn),
        ("2x13x15", $f::<U2, U13, U15> as $crate::runner::UnitFn),
        ("2x14x16", $f::<U2, U14, U16> as $crate::runner::UnitFn),
        ("2x15x17", $f::<U2, U15, U17> as $crate::runner::UnitFn),
        ("2x16x18", $f::<U2, U16, U18> as $crate::runner::UnitFn),
        ("2x17x19", $f::<U2, U17, U19> as $crate::runner::UnitFn),
        ("2x18x20", $f::<U2, U18, U20> as $crate::runner::UnitFn),
        ("2x19x21", $f::<U2, U19, U21> as $crate::runner::UnitFn),
        ("2x20x22", $f::<U2, U20, U22> as $crate::runner::UnitFn),
        ("2x21x23", $f::<U2, U21, U23> as $crate::runner::UnitFn),
        ("2x22x24", $f::<U2, U22, U24> as $crate::runner::UnitFn),
        ("2x23x25", $f::<U2, U23, U25> as $crate::runner::UnitFn),
        ("2x24x26", $f::<U2, U24, U26> as $crate::runner::UnitFn),
        ("2x25x27", $f::<U2, U25, U27> as $crate::runner::UnitFn),
        ("2x26x28", $f::<U2, U26, U28> as $crate::runner::UnitFn),
        ("2x27x29", $f::<U2, U27, U29> as $crate::runner::UnitFn),
        ("2x28x30", $f::<U2, U28, U30> as $crate::runner::UnitFn),
        ("2x29x31", $f::<U2, U29, U31> as $crate::runner::UnitFn),
        ("2x30x32", $f::<U2, U30, U32> as $crate::runner::UnitFn),
        ("2x31x0", $f::<U2, U31, U0> as $crate::runner::UnitFn),
        ("2x32x1", $f::<U2, U32, U1> as $crate::runner::UnitFn),
        ("3x0x3", $f::<U3, U0, U3> as $crate::runner::UnitFn),
        ("3x1x4", $f::<U3, U1, U4> as $crate::runner::UnitFn),
        ("3x2x5", $f::<U3, U2, U5> as $crate::runner::UnitFn),
        ("3x3x6", $f::<U3, U3, U6> as $crate::runner::UnitFn),
        ("3x4x7", $f::<U3, U4, U7> as $crate::runner::UnitFn),
        ("3x5x8", $f::<U3, U5, U8> as $crate::runner::UnitFn),
        ("3x6x9", $f::<U3, U6, U9> as $crate::runner::UnitFn),
        ("3x7x10", $f::<U3, U7, U10> as $crate::runner::UnitFn),
        ("3x8x11", $f::<U3, U8, U11> as $crate::runner::UnitFn),
        ("3x9x12", $f::<U3, U9, U12> as $crate::runner::UnitFn),
        ("3x10x13", $f::<U3, U10, U13> as $crate::runner::UnitFn),
        ("3x11x14", $f::<U3, U11, U14> as $crate::runner::UnitFn),
        ("3x12x15", $f::<U3, U12, U15> as $crate::runner::UnitFn),
        ("3x13x16", $f::<U3, U13, U16> as $crate::runner::UnitFn),
        ("3x14x17", $f::<U3, U14, U17> as $crate::runner::UnitFn),
        ("3x15x18", $f::<U3, U15, U18> as $crate::runner::UnitFn),
        ("3x16x19", $f::<U3, U16, U19> as $crate::runner::UnitFn),
        ("3x17x20", $f::<U3, U17, U20> as $crate::runner::UnitFn),
        ("3x18x21", $f::<U3, U18, U21> as $crate::runner::UnitFn),
        ("3x19x22", $f::<U3, U19, U22> as $crate::runner::UnitFn),
        ("3x20x23", $f::<U3, U20, U23> as $crate::runner::UnitFn),
        ("3x21x24", $f::<U3, U21, U24> as $crate::runner::UnitFn),
        ("3x22x25", $f::<U3, U22, U25> as $crate::runner::UnitFn),
        ("3x23x26", $f::<U3, U23, U26> as $crate::runner::UnitFn),
        ("3x24x27", $f::<U3, U24, U27> as $crate::runner::UnitFn),
        ("3x25x28", $f::<U3, U25, U28> as $crate::runner::UnitFn),
        ("3x26x29", $f::<U3, U26, U29> as $crate::runner::UnitFn),
        ("3x27x30", $f::<U3, U27, U30> as $crate::runner::UnitFn),
        ("3x28x31", $f::<U3, U28, U31> as $crate::runner::UnitFn),
        ("3x29x32", $f::<U3, U29, U32> as $crate::runner::UnitFn),
        ("3x30x0", $f::<U3, U30, U0> as $crate::runner::UnitFn),
        ("3x31x1", $f::<U3, U31, U1> as $crate::runner::UnitFn),
        ("3x32x2", $f::<U3, U32, U2> as $crate::runner::UnitFn),
        ("4x0x4", $f::<U4, U0, U4> as $crate::runner::UnitFn),
        ("4x1x5", $f::<U4, U1, U5> as $crate::runner::UnitFn),
        ("4x2x6", $f::<U4, U2, U6> as $crate::runner::UnitFn),
        ("4x3x7", $f::<U4, U3, U7> as $crate::runner::UnitFn),
        ("4x4x8", $f::<U4, U4, U8> as $crate::runner::UnitFn),
        ("4x5x9", $f::<U4, U5, U9> as $crate::runner::UnitFn),
        ("4x6x10", $f::<U4, U6, U10> as $crate::runner::UnitFn),
        ("4x7x11", $f::<U4, U7, U11> as $crate::runner::UnitFn),
        ("4x8x12", $f::<U4, U8, U12> as $crate::runner::UnitFn),
        ("4x9x13", $f::<U4, U9, U13> as $crate::runner::UnitFn),
        ("4x10x14", $f::<U4, U10, U14> as $crate::runner::UnitFn),
        ("4x11x15", $f::<U4, U11, U15> as $crate::runner::UnitFn),
        ("4x12x16", $f::<U4, U12, U16> as $crate::runner::UnitFn),
        ("4x13x17", $f::<U4, U13, U17> as $crate::runner::UnitFn),
        ("4x14x18", $f::<U4, U14, U18> as $crate::runner::UnitFn),
        ("4x15x19", $f::<U4, U15, U19> as $crate::runner::UnitFn),
        ("4x16x20", $f::<U4, U16, U20> as $crate::runner::UnitFn),
        ("4x17x21", $f::<U4, U17, U21> as $crate::runner::UnitFn),
        ("4x18x22", $f::<U4, U18, U22> as $crate::runner::UnitFn),
        ("4x19x23", $f::<U4, U19, U23> as $crate::runner::UnitFn),
        ("4x20x24", $f::<U4, U20, U24> as $crate::runner::UnitFn),
        ("4x21x25", $f::<U4, U21, U25> as $crate::runner::UnitFn),
        ("4x22x26", $f::<U4, U22, U26> as $crate::runner::UnitFn),
        ("4x23x27", $f::<U4, U23, U27> as $crate::runner::UnitFn),
        ("4x24x28", $f::<U4, U24, U28> as $crate::runner::UnitFn),
        ("4x25x29", $f::<U4, U25, U29> as $crate::runner::UnitFn),
        ("4x26x30", $f::<U4, U26, U30> as $crate::runner::UnitFn),
        ("4x27x31", $f::<U4, U27, U31> as $crate::runner::UnitFn),
        ("4x28x32", $f::<U4, U28, U32> as $crate::runner::UnitFn),
        ("4x29x0", $f::<U4, U29, U0> as $crate::runner::UnitFn),
        ("4x30x1", $f::<U4, U30, U1> as $crate::runner::UnitFn),
        ("4x31x2", $f::<U4, U31, U2> as $crate::runner::UnitFn),
        ("4x32x3", $f::<U4, U32, U3> as $crate::runner::UnitFn),
        ("5x0x5", $f::<U5, U0, U5> as $crate::runner::UnitFn),
        ("5x1x6", $f::<U5, U1, U6> as $crate::runner::UnitFn),
        ("5x2x7", $f::<U5, U2, U7> as $crate::runner::UnitFn),
        ("5x3x8", $f::<U5, U3, U8> as $crate::runner::UnitFn),
        ("5x4x9", $f::<U5, U4, U9> as $crate::runner::UnitFn),
        ("5x5x10", $f::<U5, U5, U10> as $crate::runner::UnitFn),
        ("5x6x11", $f::<U5, U6, U11> as $crate::runner::UnitFn),
        ("5x7x12", $f::<U5, U7, U12> as $crate::runner::UnitFn),
        ("5x8x13", $f::<U5, U8, U13> as $crate::runner::UnitFn),
        ("5x9x14", $f::<U5, U9, U14> as $crate::runner::UnitFn),
        ("5x10x15", $f::<U5, U10, U15> as $crate::runner::UnitFn),
        ("5x11x16", $f::<U5, U11, U16> as $crate::runner::UnitFn),
        ("5x12x17", $f::<U5, U12, U17> as $crate::runner::UnitFn),
        ("5x13x18", $f::<U5, U13, U18> as $crate::runner::UnitFn),
        ("5x14x19", $f::<U5, U14, U19> as $crate::runner::UnitFn),
        ("5x15x20", $f::<U5, U15, U20> as $crate::runner::UnitFn),
        ("5x16x21", $f::<U5, U16, U21> as $crate::runner::UnitFn),
        ("5x17x22", $f::<U5, U17, U22> as $crate::runner::UnitFn),
        ("5x18x23", $f::<U5, U18, U23> as $crate::runner::UnitFn),
        ("5x19x24", $f::<U5, U19, U24> as $crate::runner::UnitFn),
        ("5x20x25", $f::<U5, U20, U25> as $crate::runner::UnitFn),
        ("5x21x26", $f::<U5, U21, U26> as $crate::runner::UnitFn),
        ("5x22x27", $f::<U5, U22, U27> as $crate::runner::UnitFn),
        ("5x23x28", $f::<U5, U23, U28> as $crate::runner::UnitFn),
        ("5x24x29", $f::<U5, U24, U29> as $crate::runner::UnitFn),
        ("5x25x30", $f::<U5, U25, U30> as $crate::runner::UnitFn),
        ("5x26x31", $f::<U5, U26, U31> as $crate::runner::UnitFn),
        ("5x27x32", $f::<U5, U27, U32> as $crate::runner::UnitFn),
        ("5x28x0", $f::<U5, U28, U0> as $crate::runner::UnitFn),
        ("5x29x1", $f::<U5, U29, U1> as $crate::runner::UnitFn),
        ("5x30x2", $f::<U5, U30, U2> as $crate::runner::UnitFn),
        ("5x31x3", $f::<U5, U31, U3> as $crate::runner::UnitFn),
        ("5x32x4", $f::<U5, U32, U4> as $crate::runner::UnitFn),
        ("6x0x6", $f::<U6, U0, U6> as $crate::runner::UnitFn),
        ("6x1x7", $f::<U6, U1, U7> as $crate::runner::UnitFn),
        ("6x2x8", $f::<U6, U2, U8> as $crate::runner::UnitFn),
        ("6x3x9", $f::<U6, U3, U9> as $crate::runner::UnitFn),
        ("6x4x10", $f::<U6, U4, U10> as $crate::runner::UnitFn),
        ("6x5x11", $f::<U6, U5, U11> as $crate::runner::UnitFn),
        ("6x6x12", $f::<U6, U6, U12> as $crate::runner::UnitFn),
        ("6x7x13", $f::<U6, U7, U13> as $crate::runner::UnitFn),
        ("6x8x14", $f::<U6, U8, U14> as $crate::runner::UnitFn),
        ("6x9x15", $f::<U6, U9, U15> as $crate::runner::UnitFn),
        ("6x10x16", $f::<U6, U10, U16> as $crate::runner::UnitFn),
        ("6x11x17", $f::<U6, U11, U17> as $crate::runner::UnitFn),
        ("6x12x18", $f::<U6, U12, U18> as $crate::runner::UnitFn),
        ("6x13x19", $f::<U6, U13, U19> as $crate::runner::UnitFn),
        ("6x14x20", $f::<U6, U14, U20> as $crate::runner::UnitFn),
        ("6x15x21", $f::<U6, U15, U21> as $crate::runner::UnitFn),
        ("6x16x22", $f::<U6, U16, U22> as $crate::runner::UnitFn),
        ("6x17x23", $f::<U6, U17, U23> as $crate::runner::UnitFn),
        ("6x18x24", $f::<U6, U18, U24> as $crate::runner::UnitFn),
        ("6x19x25", $f::<U6, U19, U25> as $crate::runner::UnitFn),
        ("6x20x26", $f::<U6, U20, U26> as $crate::runner::UnitFn),
        ("6x21x27", $f::<U6, U21, U27> as $crate::runner::UnitFn),
        ("6x22x28", $f::<U6, U22, U28> as $crate::runner::UnitFn),
        ("6x23x29", $f::<U6, U23, U29> as $crate::runner::UnitFn),
        ("6x24x30", $f::<U6, U24, U30> as $crate::runner::UnitFn),
        ("6x25x31", $f::<U6, U25, U31> as $crate::runner::UnitFn),
        ("6x26x32", $f::<U6, U26, U32> as $crate::runner::UnitFn),
        ("6x27x0", $f::<U6, U27, U0> as $crate::runner::UnitFn),
        ("6x28x1", $f::<U6, U28, U1> as $crate::runner::UnitFn),
        ("6x29x2", $f::<U6, U29, U2> as $crate::runner::UnitFn),
        ("6x30x3", $f::<U6, U30, U3> as $crate::runner::UnitFn),
        ("6x31x4", $f::<U6, U31, U4> as $crate::runner::UnitFn),
        ("6x32x5", $f::<U6, U32, U5> as $crate::runner::UnitFn),
        ("7x0x7", $f::<U7, U0, U7> as $crate::runner::UnitFn),
        ("7x1x8", $f::<U7, U1, U8> as $crate::runner::UnitFn),
        ("7x2x9", $f::<U7, U2, U9> as $crate::runner::UnitFn),
        ("7x3x10", $f::<U7, U3, U10> as $crate::runner::UnitFn),
        ("7x4x11", $f::<U7, U4, U11> as $crate::runner::UnitFn),
        ("7x5x12", $f::<U7, U5, U12> as $crate::runner::UnitFn),
        ("7x6x13", $f::<U7, U6, U13> as $crate::runner::UnitFn),
        ("7x7x14", $f::<U7, U7, U14> as $crate::runner::UnitFn),
        ("7x8x15", $f::<U7, U8, U15> as $crate::runner::UnitFn),
        ("7x9x16", $f::<U7, U9, U16> as $crate::runner::UnitFn),
        ("7x10x17", $f::<U7, U10, U17> as $crate::runner::UnitFn),
        ("7x11x18", $f::<U7, U11, U18> as $crate::runner::UnitFn),
        ("7x12x19", $f::<U7, U12, U19> as $crate::runner::UnitFn),
        ("7x13x20", $f::<U7, U13, U20> as $crate::runner::UnitFn),
        ("7x14x21", $f::<U7, U14, U21> as $crate::runner::UnitFn),
        ("7x15x22", $f::<U7, U15, U22> as $crate::runner::UnitFn),
        ("7x16x23", $f::<U7, U16, U23> as $crate::runner::UnitFn),
        ("7x17x24", $f::<U7, U17, U24> as $crate::runner::UnitFn),
        ("7x18x25", $f::<U7, U18, U25> as $crate::runner::UnitFn),
        ("7x19x26", $f::<U7, U19, U26> as $crate::runner::UnitFn),
        ("7x20x27", $f::<U7, U20, U27> as $crate::runner::UnitFn),
        ("7x21x28", $f::<U7, U21, U28> as $crate::runner::UnitFn),
        ("7x22x29", $f::<U7, U22, U29> as $crate::runner::UnitFn),
        ("7x23x30", $f::<U7, U23, U30> as $crate::runner::UnitFn),
        ("7x24x31", $f::<U7, U24, U31> as $crate::runner::UnitFn),
        ("7x25x32", $f::<U7, U25, U32> as $crate::runner::UnitFn),
        ("7x26x0", $f::<U7, U26, U0> as $crate::runner::UnitFn),
        ("7x27x1", $f::<U7, U27, U1> as $crate::runner::UnitFn),
        ("7x28x2", $f::<U7, U28, U2> as $crate::runner::UnitFn),
        ("7x29x3", $f::<U7, U29, U3> as $crate::runner::UnitFn),
        ("7x30x4", $f::<U7, U30, U4> as $crate::runner::UnitFn),
        ("7x31x5", $f::<U7, U31, U5> as $crate::runner::UnitFn),
        ("7x32x6", $f::<U7, U32, U6> as $crate::runner::UnitFn),
        ("8x0x8", $f::<U8, U0, U8> as $crate::runner::UnitFn),
        ("8x1x9", $f::<U8, U1, U9> as $crate::runner::UnitFn),
        ("8x2x10", $f::<U8, U2, U10> as $crate::runner::UnitFn),
        ("8x3x11", $f::<U8, U3, U11> as $crate::runner::UnitFn),
        ("8x4x12", $f::<U8, U4, U12> as $crate::runner::UnitFn),
        ("8x5x13", $f::<U8, U5, U13> as $crate::runner::UnitFn),
        ("8x6x14", $f::<U8, U6, U14> as $crate::runner::UnitFn),
        ("8x7x15", $f::<U8, U7, U15> as $crate::runner::UnitFn),
        ("8x8x16", $f::<U8, U8, U16> as $crate::runner::UnitFn),
        ("8x9x17", $f::<U8, U9, U17> as $crate::runner::UnitFn),
        ("8x10x18", $f::<U8, U10, U18> as $crate::runner::UnitFn),
        ("8x11x19", $f::<U8, U11, U19> as $crate::runner::UnitFn),
        ("8x12x20", $f::<U8, U12, U20> as $crate::runner::UnitFn),
        ("8x13x21", $f::<U8, U13, U21> as $crate::runner::UnitFn),
        ("8x14x22", $f::<U8, U14, U22> as $crate::runner::UnitFn),
        ("8x15x23", $f::<U8, U15, U23> as $crate::runner::UnitFn),
        ("8x16x24", $f::<U8, U16, U24> as $crate::runner::UnitFn),
        ("8x17x25", $f::<U8, U17, U25> as $crate::runner::UnitFn),
        ("8x18x26", $f::<U8, U18, U26> as $crate::runner::UnitFn),
        ("8x19x27", $f::<U8, U19, U27> as $crate::runner::UnitFn),
        ("8x20x28", $f::<U8, U20, U28> as $crate::runner::UnitFn),
        ("8x21x29", $f::<U8, U21, U29> as $crate::runner::UnitFn),
        ("8x22x30", $f::<U8, U22, U30> as $crate::runner::UnitFn),
        ("8x23x31", $f::<U8, U23, U31> as $crate::runner::UnitFn),
        ("8x24x32", $f::<U8, U24, U32> as $crate::runner::UnitFn),
        ("8x25x0", $f::<U8, U25, U0> as $crate::runner::UnitFn),
        ("8x26x1", $f::<U8, U26, U1> as $crate::runner::UnitFn),
        ("8x27x2", $f::<U8, U27, U2> as $crate::runner::UnitFn),
        ("8x28x3", $f::<U8, U28, U3> as $crate::runner::UnitFn),
        ("8x29x4", $f::<U8, U29, U4> as $crate::runner::UnitFn),
        ("8x30x5", $f::<U8, U30, U5> as $crate::runner::UnitFn),
        ("8x31x6", $f::<U8, U31, U6> as $crate::runner::UnitFn),
        ("8x32x7", $f::<U8, U32, U7> as $crate::runner::UnitFn),
        ("9x0x9", $f::<U9, U0, U9> as $crate::runner::UnitFn),
        ("9x1x10", $f::<U9, U1, U10> as $crate::runner::UnitFn),
        ("9x2x11", $f::<U9, U2, U11> as $crate::runner::UnitFn),
        ("9x3x12", $f::<U9, U3, U12> as $crate::runner::UnitFn),
        ("9x4x13", $f::<U9, U4, U13> as $crate::runner::UnitFn),
        ("9x5x14", $f::<U9, U5, U14> as $crate::runner::UnitFn),
        ("9x6x15", $f::<U9, U6, U15> as $crate::runner::UnitFn),
        ("9x7x16", $f::<U9, U7, U16> as $crate::runner::UnitFn),
        ("9x8x17", $f::<U9, U8, U17> as $crate::runner::UnitFn),
        ("9x9x18", $f::<U9, U9, U18> as $crate::runner::UnitFn),
        ("9x10x19", $f::<U9, U10, U19> as $crate::runner::UnitFn),
        ("9x11x20", $f::<U9, U11, U20> as $crate::runner::UnitFn),
        ("9x12x21", $f::<U9, U12, U21> as $crate::runner::UnitFn),
        ("9x13x22", $f::<U9, U13, U22> as $crate::runner::UnitFn),
        ("9x14x23", $f::<U9, U14, U23> as $crate::runner::UnitFn),
        ("9x15x24", $f::<U9, U15, U24> as $crate::runner::UnitFn),
        ("9x16x25", $f::<U9, U16, U25> as $crate::runner::UnitFn),
        ("9x17x26", $f::<U9, U17, U26> as $crate::runner::UnitFn),
        ("9x18x27", $f::<U9, U18, U27> as $crate::runner::UnitFn),
        ("9x19x28", $f::<U9, U19, U28> as $crate::runner::UnitFn),
        ("9x20x29", $f::<U9, U20, U29> as $crate::runner::UnitFn),
        ("9x21x30", $f::<U9, U21, U30> as $crate::runner::UnitFn),
        ("9x22x31", $f::<U9, U22, U31> as $crate::runner::UnitFn),
        ("9x23x32", $f::<U9, U23, U32> as $crate::runner::UnitFn),
        ("9x24x0", $f::<U9, U24, U0> as $crate::runner::UnitFn),
        ("9x25x1", $f::<U9, U25, U1> as $crate::runner::UnitFn),
        ("9x26x2", $f::<U9, U26, U2> as $crate::runner::UnitFn),
        ("9x27x3", $f::<U9, U27, U3> as $crate::runner::UnitFn),
        ("9x28x4", $f::<U9, U28, U4> as $crate::runner::UnitFn),
        ("9x29x5", $f::<U9, U29, U5> as $crate::runner::UnitFn),
        ("9x30x6", $f::<U9, U30, U6> as $crate::runner::UnitFn),
        ("9x31x7", $f::<U9, U31, U7> as $crate::runner::UnitFn),
        ("9x32x8", $f::<U9, U32, U8> as $crate::runner::UnitFn),
        ("10x0x10", $f::<U10, U0, U10> as $crate::runner::UnitFn),
        ("10x1x11", $f::<U10, U1, U11> as $crate::runner::UnitFn),
        ("10x2x12", $f::<U10, U2, U12> as $crate::runner::UnitFn),
        ("10x3x13", $f::<U10, U3, U13> as $crate::runner::UnitFn),
        ("10x4x14", $f::<U10, U4, U14> as $crate::runner::UnitFn),
        ("10x5x15", $f::<U10, U5, U15> as $crate::runner::UnitFn),
        ("10x6x16", $f::<U10, U6, U16> as $crate::runner::UnitFn),
        ("10x7x17", $f::<U10, U7, U17> as $crate::runner::UnitFn),
        ("10x8x18", $f::<U10, U8, U18> as $crate::runner::UnitFn),
        ("10x9x19", $f::<U10, U9, U19> as $crate::runner::UnitFn),
        ("10x10x20", $f::<U10, U10, U20> as $crate::runner::UnitFn),
        ("10x11x21", $f::<U10, U11, U21> as $crate::runner::UnitFn),
        ("10x12x22", $f::<U10, U12, U22> as $crate::runner::UnitFn),
        ("10x13x23", $f::<U10, U13, U23> as $crate::runner::UnitFn),
        ("10x14x24", $f::<U10, U14, U24> as $crate::runner::UnitFn),
        ("10x15x25", $f::<U10, U15, U25> as $crate::runner::UnitFn),
        ("10x16x26", $f::<U10, U16, U26> as $crate::runner::UnitFn),
        ("10x17x27", $f::<U10, U17, U27> as $crate::runner::UnitFn),
        ("10x18x28", $f::<U10, U18, U28> as $crate::runner::UnitFn),
        ("10x19x29", $f::<U10, U19, U29> as $crate::runner::UnitFn),
        ("10x20x30", $f::<U10, U20, U30> as $crate::runner::UnitFn),
        ("10x21x31", $f::<U10, U21, U31> as $crate::runner::UnitFn),
        ("10x22x32", $f::<U10, U22, U32> as $crate::runner::UnitFn),
        ("10x23x0", $f::<U10, U23, U0> as $crate::runner::UnitFn),
        ("10x24x1", $f::<U10, U24, U1> as $crate::runner::UnitFn),
        ("10x25x2", $f::<U10, U25, U2> as $crate::runner::UnitFn),
        ("10x26x3", $f::<U10, U26, U3> as $crate::runner::UnitFn),
        ("10x27x4", $f::<U10, U27, U4> as $crate::runner::UnitFn),
        ("10x28x5", $f::<U10, U28, U5> as $crate::runner::UnitFn),
        ("10x29x6", $f::<U10, U29, U6> as $crate::runner::UnitFn),
        ("10x30x7", $f::<U10, U30, U7> as $crate::runner::UnitFn),
        ("10x31x8", $f::<U10, U31, U8> as $crate::runner::UnitFn),
        ("10x32x9", $f::<U10, U32, U9> as $crate::runner::UnitFn),
        ("11x0x11", $f::<U11, U0, U11> as $crate::runner::UnitFn),
        ("11x1x12", $f::<U11, U1, U12> as $crate::runner::UnitFn),
        ("11x2x13", $f::<U11, U2, U13> as $crate::runner::UnitFn),
        ("11x3x14", $f::<U11, U3, U14> as $crate::runner::UnitFn),
        ("11x4x15", $f::<U11, U4, U15> as $crate::runner::UnitFn),
        ("11x5x16", $f::<U11, U5, U16> as $crate::runner::UnitFn),
        ("11x6x17", $f::<U11, U6, U17> as $crate::runner::UnitFn),
        ("11x7x18", $f::<U11, U7, U18> as $crate::runner::UnitFn),
        ("11x8x19", $f::<U11, U8, U19> as $crate::runner::UnitFn),
        ("11x9x20", $f::<U11, U9, U20> as $crate::runner::UnitFn),
        ("11x10x21", $f::<U11, U10, U21> as $crate::runner::UnitFn),
        ("11x11x22", $f::<U11, U11, U22> as $crate::runner::UnitFn),
        ("11x12x23", $f::<U11, U12, U23> as $crate::runner::UnitFn),
        ("11x13x24", $f::<U11, U13, U24> as $crate::runner::UnitFn),
        ("11x14x25", $f::<U11, U14, U25> as $crate::runner::UnitFn),
        ("11x15x26", $f::<U11, U15, U26> as $crate::runner::UnitFn),
        ("11x16x27", $f::<U11, U16, U27> as $crate::runner::UnitFn),
        ("11x17x28", $f::<U11, U17, U28> as $crate::runner::UnitFn),
        ("11x18x29", $f::<U11, U18, U29> as $crate::runner::UnitFn),
        ("11x19x30", $f::<U11, U19, U30> as $crate::runner::UnitFn),
        ("11x20x31", $f::<U11, U20, U31> as $crate::runner::UnitFn),
        ("11x21x32", $f::<U11, U21, U32> as $crate::runner::UnitFn),
        ("11x22x0", $f::<U11, U22, U0> as $crate::runner::UnitFn),
        ("11x23x1", $f::<U11, U23, U1> as $crate::runner::UnitFn),
        ("11x24x2", $f::<U11, U24, U2> as $crate::runner::UnitFn),
        ("11x25x3", $f::<U11, U25, U3> as $crate::runner::UnitFn),
        ("11x26x4", $f::<U11, U26, U4> as $crate::runner::UnitFn),
        ("11x27x5", $f::<U11, U27, U5> as $crate::runner::UnitFn),
        ("11x28x6", $f::<U11, U28, U6> as $crate::runner::UnitFn),
        ("11x29x7", $f::<U11, U29, U7> as $crate::runner::UnitFn),
        ("11x30x8", $f::<U11, U30, U8> as $crate::runner::UnitFn),
        ("11x31x9", $f::<U11, U31, U9> as $crate::runner::UnitFn),
        ("11x32x10", $f::<U11, U32, U10> as $crate::runner::UnitFn),
        ("12x0x12", $f::<U12, U0, U12> as $crate::runner::UnitFn),
        ("12x1x13", $f::<U12, U1, U13> as $crate::runner::UnitFn),
        ("12x2x14", $f::<U12, U2, U14> as $crate::runner::UnitFn),
        ("12x3x15", $f::<U12, U3, U15> as $crate::runner::UnitFn),
        ("12x4x16", $f::<U12, U4, U16> as $crate::runner::UnitFn),
        ("12x5x17", $f::<U12, U5, U17> as $crate::runner::UnitFn),
        ("12x6x18", $f::<U12, U6, U18> as $crate::runner::UnitFn),
        ("12x7x19", $f::<U12, U7, U19> as $crate::runner::UnitFn),
        ("12x8x20", $f::<U12, U8, U20> as $crate::runner::UnitFn),
        ("12x9x21", $f::<U12, U9, U21> as $crate::runner::UnitFn),
        ("12x10x22", $f::<U12, U10, U22> as $crate::runner::UnitFn),
        ("12x11x23", $f::<U12, U11, U23> as $crate::runner::UnitFn),
        ("12x12x24", $f::<U12, U12, U24> as $crate::runner::UnitFn),
        ("12x13x25", $f::<U12, U13, U25> as $crate::runner::UnitFn),
        ("12x14x26", $f::<U12, U14, U26> as $crate::runner::UnitFn),
        ("12x15x27", $f::<U12, U15, U27> as $crate::runner::UnitFn),
        ("12x16x28", $f::<U12, U16, U28> as $crate::runner::UnitFn),
        ("12x17x29", $f::<U12, U17, U29> as $crate::runner::UnitFn),
        ("12x18x30", $f::<U12, U18, U30> as $crate::runner::UnitFn),
        ("12x19x31", $f::<U12, U19, U31> as $crate::runner::UnitFn),
        ("12x20x32", $f::<U12, U20, U32> as $crate::runner::UnitFn),
        ("12x21x0", $f::<U12, U21, U0> as $crate::runner::UnitFn),
        ("12x22x1", $f::<U12, U22, U1> as $crate::runner::UnitFn),
        ("12x23x2", $f::<U12, U23, U2> as $crate::runner::UnitFn),
        ("12x24x3", $f::<U12, U24, U3> as $crate::runner::UnitFn),
        ("12x25x4", $f::<U12, U25, U4> as $crate::runner::UnitFn),
        ("12x26x5", $f::<U12, U26, U5> as $crate::runner::UnitFn),
        ("12x27x6", $f::<U12, U27, U6> as $crate::runner::UnitFn),
        ("12x28x7", $f::<U12, U28, U7> as $crate::runner::UnitFn),
        ("12x29x8", $f::<U12, U29, U8> as $crate::runner::UnitFn),
        ("12x30x9", $f::<U12, U30, U9> as $crate::runner::UnitFn),
        ("12x31x10", $f::<U12, U31, U10> as $crate::runner::UnitFn),
        ("12x32x11", $f::<U12, U32, U11> as $crate::runner::UnitFn),
        ("13x0x13", $f::<U13, U0, U13> as $crate::runner::UnitFn),
        ("13x1x14", $f::<U13, U1, U14> as $crate::runner::UnitFn),
        ("13x2x15", $f::<U13, U2, U15> as $crate::runner::UnitFn),
        ("13x3x16", $f::<U13, U3, U16> as $crate::runner::UnitFn),
        ("13x4x17", $f::<U13, U4, U17> as $crate::runner::UnitFn),
        ("13x5x18", $f::<U13, U5, U18> as $crate::runner::UnitFn),
        ("13x6x19", $f::<U13, U6, U19> as $crate::runner::UnitFn),
        ("13x7x20", $f::<U13, U7, U20> as $crate::runner::UnitFn),
        ("13x8x21", $f::<U13, U8, U21> as $crate::runner::UnitFn),
        ("13x9x22", $f::<U13, U9, U22> as $crate::runner::UnitFn),
        ("13x10x23", $f::<U13, U10, U23> as $crate::runner::UnitFn),
        ("13x11x24", $f::<U13, U11, U24> as $crate::runner::UnitFn),
        ("13x12x25", $f::<U13, U12, U25> as $crate::runner::UnitFn),
        ("13x13x26", $f::<U13, U13, U26> as $crate::runner::UnitFn),
        ("13x14x27", $f::<U13, U14, U27> as $crate::runner::UnitFn),
        ("13x15x28", $f::<U13, U15, U28> as $crate::runner::UnitFn),
        ("13x16x29", $f::<U13, U16, U29> as $crate::runner::UnitFn),
        ("13x17x30", $f::<U13, U17, U30> as $crate::runner::UnitFn),
        ("13x18x31", $f::<U13, U18, U31> as $crate::runner::UnitFn),
        ("13x19x32", $f::<U13, U19, U32> as $crate::runner::UnitFn),
        ("13x20x0", $f::<U13, U20, U0> as $crate::runner::UnitFn),
        ("13x21x1", $f::<U13, U21, U1> as $crate::runner::UnitFn),
        ("13x22x2", $f::<U13, U22, U2> as $crate::runner::UnitFn),
        ("13x23x3", $f::<U13, U23, U3> as $crate::runner::UnitFn),
        ("13x24x4", $f::<U13, U24, U4> as $crate::runner::UnitFn),
        ("13x25x5", $f::<U13, U25, U5> as $crate::runner::UnitFn),
        ("13x26x6", $f::<U13, U26, U6> as $crate::runner::UnitFn),
        ("13x27x7", $f::<U13, U27, U7> as $crate::runner::UnitFn),
        ("13x28x8", $f::<U13, U28, U8> as $crate::runner::UnitFn),
        ("13x29x9", $f::<U13, U29, U9> as $crate::runner::UnitFn),
        ("13x30x10", $f::<U13, U30, U10> as $crate::runner::UnitFn),
        ("13x31x11", $f::<U13, U31, U11> as $crate::runner::UnitFn),
        ("13x32x12", $f::<U13, U32, U12> as $crate::runner::UnitFn),
        ("14x0x14", $f::<U14, U0, U14> as $crate::runner::UnitFn),
        ("14x1x15", $f::<U14, U1, U15> as $crate::runner::UnitFn),
        ("14x2x16", $f::<U14, U2, U16> as $crate::runner::UnitFn),
        ("14x3x17", $f::<U14, U3, U17> as $crate::runner::UnitFn),
        ("14x4x18", $f::<U14, U4, U18> as $crate::runner::UnitFn),
        ("14x5x19", $f::<U14, U5, U19> as $crate::runner::UnitFn),
        ("14x6x20", $f::<U14, U6, U20> as $crate::runner::UnitFn),
        ("14x7x21", $f::<U14, U7, U21> as $crate::runner::UnitFn),
        ("14x8x22", $f::<U14, U8, U22> as $crate::runner::UnitFn),
        ("14x9x23", $f::<U14, U9, U23> as $crate::runner::UnitFn),
        ("14x10x24", $f::<U14, U10, U24> as $crate::runner::UnitFn),
        ("14x11x25", $f::<U14, U11, U25> as $crate::runner::UnitFn),
        ("14x12x26", $f::<U14, U12, U26> as $crate::runner::UnitFn),
        ("14x13x27", $f::<U14, U13, U27> as $crate::runner::UnitFn),
        ("14x14x28", $f::<U14, U14, U28> as $crate::runner::UnitFn),
        ("14x15x29", $f::<U14, U15, U29> as $crate::runner::UnitFn),
        ("14x16x30", $f::<U14, U16, U30> as $crate::runner::UnitFn),
        ("14x17x31", $f::<U14, U17, U31> as $crate::runner::UnitFn),
        ("14x18x32", $f::<U14, U18, U32> as $crate::runner::UnitFn),
        ("14x19x0", $f::<U14, U19, U0> as $crate::runner::UnitFn),
        ("14x20x1", $f::<U14, U20, U1> as $crate::runner::UnitFn),
        ("14x21x2", $f::<U14, U21, U2> as $crate::runner::UnitFn),
        ("14x22x3", $f::<U14, U22, U3> as $crate::runner::UnitFn),
        ("14x23x4", $f::<U14, U23, U4> as $crate::runner::UnitFn),
        ("14x24x5", $f::<U14, U24, U5> as $crate::runner::UnitFn),
        ("14x25x6", $f::<U14, U25, U6> as $crate::runner::UnitFn),
        ("14x26x7", $f::<U14, U26, U7> as $crate::runner::UnitFn),
        ("14x27x8", $f::<U14, U27, U8> as $crate::runner::UnitFn),
        ("14x28x9", $f::<U14, U28, U9> as $crate::runner::UnitFn),
        ("14x29x10", $f::<U14, U29, U10> as $crate::runner::UnitFn),
        ("14x30x11", $f::<U14, U30, U11> as $crate::runner::UnitFn),
        ("14x31x12", $f::<U14, U31, U12> as $crate::runner::UnitFn),
        ("14x32x13", $f::<U14, U32, U13> as $crate::runner::UnitFn),
        ("15x0x15", $f::<U15, U0, U15> as $crate::runner::UnitFn),
        ("15x1x16", $f::<U15, U1, U16> as $crate::runner::UnitFn),
        ("15x2x17", $f::<U15, U2, U17> as $crate::runner::UnitFn),
        ("15x3x18", $f::<U15, U3, U18> as $crate::runner::UnitFn),
        ("15x4x19", $f::<U15, U4, U19> as $crate::runner::UnitFn),
        ("15x5x20", $f::<U15, U5, U20> as $crate::runner::UnitFn),
        ("15x6x21", $f::<U15, U6, U21> as $crate::runner::UnitFn),
        ("15x7x22", $f::<U15, U7, U22> as $crate::runner::UnitFn),
        ("15x8x23", $f::<U15, U8, U23> as $crate::runner::UnitFn),
        ("15x9x24", $f::<U15, U9, U24> as $crate::runner::UnitFn),
        ("15x10x25", $f::<U15, U10, U25> as $crate::runner::UnitFn),
        ("15x11x26", $f::<U15, U11, U26> as $crate::runner::UnitFn),
        ("15x12x27", $f::<U15, U12, U27> as $crate::runner::UnitFn),
        ("15x13x28", $f::<U15, U13, U28> as $crate::runner::UnitFn),
        ("15x14x29", $f::<U15, U14, U29> as $crate::runner::UnitFn),
        ("15x15x30", $f::<U15, U15, U30> as $crate::runner::UnitFn),
        ("15x16x31", $f::<U15, U16, U31> as $crate::runner::UnitFn),
        ("15x17x32", $f::<U15, U17, U32> as $crate::runner::UnitFn),
        ("15x18x0", $f::<U15, U18, U0> as $crate::runner::UnitFn),
        ("15x19x1", $f::<U15, U19, U1> as $crate::runner::UnitFn),
        ("15x20x2", $f::<U15, U20, U2> as $crate::runner::UnitFn),
        ("15x21x3", $f::<U15, U21, U3> as $crate::runner::UnitFn),
        ("15x22x4", $f::<U15, U22, U4> as $crate::runner::UnitFn),
        ("15x23x5", $f::<U15, U23, U5> as $crate::runner::UnitFn),
        ("15x24x6", $f::<U15, U24, U6> as $crate::runner::UnitFn),
        ("15x25x7", $f::<U15, U25, U7> as $crate::runner::UnitFn),
        ("15x26x8", $f::<U15, U26, U8> as $crate::runner::UnitFn),
        ("15x27x9", $f::<U15, U27, U9> as $crate::runner::UnitFn),
        ("15x28x10", $f::<U15, U28, U10> as $crate::runner::UnitFn),
        ("15x29x11", $f::<U15, U29, U11> as $crate::runner::UnitFn),
        ("15x30x12", $f::<U15, U30, U12> as $crate::runner::UnitFn),
        ("15x31x13", $f::<U15, U31, U13> as $crate::runner::UnitFn),
        ("15x32x14", $f::<U15, U32, U14> as $crate::runner::UnitFn),
        ("16x0x16", $f::<U16, U0, U16> as $crate::runner::UnitFn),
        ("16x1x17", $f::<U16, U1, U17> as $crate::runner::UnitFn),
        ("16x2x18", $f::<U16, U2, U18> as $crate::runner::UnitFn),
        ("16x3x19", $f::<U16, U3, U19> as $crate::runner::UnitFn),
        ("16x4x20", $f::<U16, U4, U20> as $crate::runner::UnitFn),
        ("16x5x21", $f::<U16, U5, U21> as $crate::runner::UnitFn),
        ("16x6x22", $f::<U16, U6, U22> as $crate::runner::UnitFn),
        ("16x7x23", $f::<U16, U7, U23> as $crate::runner::UnitFn),
        ("16x8x24", $f::<U16, U8, U24> as $crate::runner::UnitFn),
        ("16x9x25", $f::<U16, U9, U25> as $crate::runner::UnitFn),
        ("16x10x26", $f::<U16, U10, U26> as $crate::runner::UnitFn),
        ("16x11x27", $f::<U16, U11, U27> as $crate::runner::UnitFn),
        ("16x12x28", $f::<U16, U12, U28> as $crate::runner::UnitFn),
        ("16x13x29", $f::<U16, U13, U29> as $crate::runner::UnitFn),
        ("16x14x30", $f::<U16, U14, U30> as $crate::runner::UnitFn),
        ("16x15x31", $f::<U16, U15, U31> as $crate::runner::UnitFn),
        ("16x16x32", $f::<U16, U16, U32> as $crate::runner::UnitFn),
        ("16x17x0", $f::<U16, U17, U0> as $crate::runner::UnitFn),
        ("16x18x1", $f::<U16, U18, U1> as $crate::runner::UnitFn),
        ("16x19x2", $f::<U16, U19, U2> as $crate::runner::UnitFn),
        ("16x20x3", $f::<U16, U20, U3> as $crate::runner::UnitFn),
        ("16x21x4", $f::<U16, U21, U4> as $crate::runner::UnitFn),
        ("16x22x5", $f::<U16, U22, U5> as $crate::runner::UnitFn),
        ("16x23x6", $f::<U16, U23, U6> as $crate::runner::UnitFn),
        ("16x24x7", $f::<U16, U24, U7> as $crate::runner::UnitFn),
        ("16x25x8", $f::<U16, U25, U8> as $crate::runner::UnitFn),
        ("16x26x9", $f::<U16, U26, U9> as $crate::runner::UnitFn),
        ("16x27x10", $f::<U16, U27, U10> as $crate::runner::UnitFn),
        ("16x28x11", $f::<U16, U28, U11> as $crate::runner::UnitFn),
        ("16x29x12", $f::<U16, U29, U12> as $crate::runner::UnitFn),
        ("16x30x13", $f::<U16, U30, U13> as $crate::runner::UnitFn),
        ("16x31x14", $f::<U16, U31, U14> as $crate::runner::UnitFn),
        ("16x32x15", $f::<U16, U32, U15> as $crate::runner::UnitFn),
        ("17x0x17", $f::<U17, U0, U17> as $crate::runner::UnitFn),
        ("17x1x18", $f::<U17, U1, U18> as $crate::runner::UnitFn),
        ("17x2x19", $f::<U17, U2, U19> as $crate::runner::UnitFn),
        ("17x3x20", $f::<U17, U3, U20> as $crate::runner::UnitFn),
        ("17x4x21", $f::<U17, U4, U21> as $crate::runner::UnitFn),
        ("17x5x22", $f::<U17, U5, U22> as $crate::runner::UnitFn),
        ("17x6x23", $f::<U17, U6, U23> as $crate::runner::UnitFn),
        ("17x7x24", $f::<U17, U7, U24> as $crate::runner::UnitFn),
        ("17x8x25", $f::<U17, U8, U25> as $crate::runner::UnitFn),
        ("17x9x26", $f::<U17, U9, U26> as $crate::runner::UnitFn),
        ("17x10x27", $f::<U17, U10, U27> as $crate::runner::UnitFn),
        ("17x11x28", $f::<U17, U11, U28> as $crate::runner::UnitFn),
        ("17x12x29", $f::<U17, U12, U29> as $crate::runner::UnitFn),
        ("17x13x30", $f::<U17, U13, U30> as $crate::runner::UnitFn),
        ("17x14x31", $f::<U17, U14, U31> as $crate::runner::UnitFn),
        ("17x15x32", $f::<U17, U15, U32> as $crate::runner::UnitFn),
        ("17x16x0", $f::<U17, U16, U0> as $crate::runner::UnitFn),
        ("17x17x1", $f::<U17, U17, U1> as $crate::runner::UnitFn),
        ("17x18x2", $f::<U17, U18, U2> as $crate::runner::UnitFn),
        ("17x19x3", $f::<U17, U19, U3> as $crate::runner::UnitFn),
        ("17x20x4", $f::<U17, U20, U4> as $crate::runner::UnitFn),
        ("17x21x5", $f::<U17, U21, U5> as $crate::runner::UnitFn),
        ("17x22x6", $f::<U17, U22, U6> as $crate::runner::UnitFn),
        ("17x23x7", $f::<U17, U23, U7> as $crate::runner::UnitFn),
        ("17x24x8", $f::<U17, U24, U8> as $crate::runner::UnitFn),
        ("17x25x9", $f::<U17, U25, U9> as $crate::runner::UnitFn),
        ("17x26x10", $f::<U17, U26, U10> as $crate::runner::UnitFn),
        ("17x27x11", $f::<U17, U27, U11> as $crate::runner::UnitFn),
        ("17x28x12", $f::<U17, U28, U12> as $crate::runner::UnitFn),
        ("17x29x13", $f::<U17, U29, U13> as $crate::runner::UnitFn),
        ("17x30x14", $f::<U17, U30, U14> as $crate::runner::UnitFn),
        ("17x31x15", $f::<U17, U31, U15> as $crate::runner::UnitFn),
        ("17x32x16", $f::<U17, U32, U16> as $crate::runner::UnitFn),
        ("18x0x18", $f::<U18, U0, U18> as $crate::runner::UnitFn),
        ("18x1x19", $f::<U18, U1, U19> as $crate::runner::UnitFn),
        ("18x2x20", $f::<U18, U2, U20> as $crate::runner::UnitFn),
        ("18x3x21", $f::<U18, U3, U21> as $crate::runner::UnitFn),
        ("18x4x22", $f::<U18, U4, U22> as $crate::runner::UnitFn),
        ("18x5x23", $f::<U18, U5, U23> as $crate::runner::UnitFn),
        ("18x6x24", $f::<U18, U6, U24> as $crate::runner::UnitFn),
        ("18x7x25", $f::<U18, U7, U25> as $crate::runner::UnitFn),
        ("18x8x26", $f::<U18, U8, U26> as $crate::runner::UnitFn),
        ("18x9x27", $f::<U18, U9, U27> as $crate::runner::UnitFn),
        ("18x10x28", $f::<U18, U10, U28> as $crate::runner::UnitFn),
        ("18x11x29", $f::<U18, U11, U29> as $crate::runner::UnitFn),
        ("18x12x30", $f::<U18, U12, U30> as $crate::runner::UnitFn),
        ("18x13x31", $f::<U18, U13, U31> as $crate::runner::UnitFn),
        ("18x14x32", $f::<U18, U14, U32> as $crate::runner::UnitFn),
        ("18x15x0", $f::<U18, U15, U0> as $crate::runner::UnitFn),
        ("18x16x1", $f::<U18, U16, U1> as $crate::runner::UnitFn),
        ("18x17x2", $f::<U18, U17, U2> as $crate::runner::UnitFn),
        ("18x18x3", $f::<U18, U18, U3> as $crate::runner::UnitFn),
        ("18x19x4", $f::<U18, U19, U4> as $crate::runner::UnitFn),
        ("18x20x5", $f::<U18, U20, U5> as $crate::runner::UnitFn),
        ("18x21x6", $f::<U18, U21, U6> as $crate::runner::UnitFn),
        ("18x22x7", $f::<U18, U22, U7> as $crate::runner::UnitFn),
        ("18x23x8", $f::<U18, U23, U8> as $crate::runner::UnitFn),
        ("18x24x9", $f::<U18, U24, U9> as $crate::runner::UnitFn),
        ("18x25x10", $f::<U18, U25, U10> as $crate::runner::UnitFn),
        ("18x26x11", $f::<U18, U26, U11> as $crate::runner::UnitFn),
        ("18x27x12", $f::<U18, U27, U12> as $crate::runner::UnitFn),
        ("18x28x13", $f::<U18, U28, U13> as $crate::runner::UnitFn),
        ("18x29x14", $f::<U18, U29, U14> as $crate::runner::UnitFn),
        ("18x30x15", $f::<U18, U30, U15> as $crate::runner::UnitFn),
        ("18x31x16", $f::<U18, U31, U16> as $crate::runner::UnitFn),
        ("18x32x17", $f::<U18, U32, U17> as $crate::runner::UnitFn),
        ("19x0x19", $f::<U19, U0, U19> as $crate::runner::UnitFn),
        ("19x1x20", $f::<U19, U1, U20> as $crate::runner::UnitFn),
        ("19x2x21", $f::<U19, U2, U21> as $crate::runner::UnitFn),
        ("19x3x22", $f::<U19, U3, U22> as $crate::runner::UnitFn),
        ("19x4x23", $f::<U19, U4, U23> as $crate::runner::UnitFn),
        ("19x5x24", $f::<U19, U5, U24> as $crate::runner::UnitFn),
        ("19x6x25", $f::<U19, U6, U25> as $crate::runner::UnitFn),
        ("19x7x26", $f::<U19, U7, U26> as $crate::runner::UnitFn),
        ("19x8x27", $f::<U19, U8, U27> as $crate::runner::UnitFn),
        ("19x9x28", $f::<U19, U9, U28> as $crate::runner::UnitFn),
        ("19x10x29", $f::<U19, U10, U29> as $crate::runner::UnitFn),
        ("19x11x30", $f::<U19, U11, U30> as $crate::runner::UnitFn),
        ("19x12x31", $f::<U19, U12, U31> as $crate::runner::UnitFn),
        ("19x13x32", $f::<U19, U13, U32> as $crate::runner::UnitFn),
        ("19x14x0", $f::<U19, U14, U0> as $crate::runner::UnitFn),
        ("19x15x1", $f::<U19, U15, U1> as $crate::runner::UnitFn),
        ("19x16x2", $f::<U19, U16, U2> as $crate::runner::UnitFn),
        ("19x17x3", $f::<U19, U17, U3> as $crate::runner::UnitFn),
        ("19x18x4", $f::<U19, U18, U4> as $crate::runner::UnitFn),
        ("19x19x5", $f::<U19, U19, U5> as $crate::runner::UnitFn),
        ("19x20x6", $f::<U19, U20, U6> as $crate::runner::UnitFn),
        ("19x21x7", $f::<U19, U21, U7> as $crate::runner::UnitFn),
        ("19x22x8", $f::<U19, U22, U8> as $crate::runner::UnitFn),
        ("19x23x9", $f::<U19, U23, U9> as $crate::runner::UnitFn),
        ("19x24x10", $f::<U19, U24, U10> as $crate::runner::UnitFn),
        ("19x25x11", $f::<U19, U25, U11> as $crate::runner::UnitFn),
        ("19x26x12", $f::<U19, U26, U12> as $crate::runner::UnitFn),
        ("19x27x13", $f::<U19, U27, U13> as $crate::runner::UnitFn),
        ("19x28x14", $f::<U19, U28, U14> as $crate::runner::UnitFn),
        ("19x29x15", $f::<U19, U29, U15> as $crate::runner::UnitFn),
        ("19x30x16", $f::<U19, U30, U16> as $crate::runner::UnitFn),
        ("19x31x17", $f::<U19, U31, U17> as $crate::runner::UnitFn),
        ("19x32x18", $f::<U19, U32, U18> as $crate::runner::UnitFn),
        ("20x0x20", $f::<U20, U0, U20> as $crate::runner::UnitFn),
        ("20x1x21", $f::<U20, U1, U21> as $crate::runner::UnitFn),
        ("20x2x22", $f::<U20, U2, U22> as $crate::runner::UnitFn),
        ("20x3x23", $f::<U20, U3, U23> as $crate::runner::UnitFn),
        ("20x4x24", $f::<U20, U4, U24> as $crate::runner::UnitFn),
        ("20x5x25", $f::<U20, U5, U25> as $crate::runner::UnitFn),
        ("20x6x26", $f::<U20, U6, U26> as $crate::runner::UnitFn),
        ("20x7x27", $f::<U20, U7, U27> as $crate::runner::UnitFn),
        ("20x8x28", $f::<U20, U8, U28> as $crate::runner::UnitFn),
        ("20x9x29", $f::<U20, U9, U29> as $crate::runner::UnitFn),
        ("20x10x30", $f::<U20, U10, U30> as $crate::runner::UnitFn),
        ("20x11x31", $f::<U20, U11, U31> as $crate::runner::UnitFn),
        ("20x12x32", $f::<U20, U12, U32> as $crate::runner::UnitFn),
        ("20x13x0", $f::<U20, U13, U0> as $crate::runner::UnitFn),
        ("20x14x1", $f::<U20, U14, U1> as $crate::runner::UnitFn),
        ("20x15x2", $f::<U20, U15, U2> as $crate::runner::UnitFn),
        ("20x16x3", $f::<U20, U16, U3> as $crate::runner::UnitFn),
        ("20x17x4", $f::<U20, U17, U4> as $crate::runner::UnitFn),
        ("20x18x5", $f::<U20, U18, U5> as $crate::runner::UnitFn),
        ("20x19x6", $f::<U20, U19, U6> as $crate::runner::UnitFn),
        ("20x20x7", $f::<U20, U20, U7> as $crate::runner::UnitFn),
        ("20x21x8", $f::<U20, U21, U8> as $crate::runner::UnitFn),
        ("20x22x9", $f::<U20, U22, U9> as $crate::runner::UnitFn),
        ("20x23x10", $f::<U20, U23, U10> as $crate::runner::UnitFn),
        ("20x24x11", $f::<U20, U24, U11> as $crate::runner::UnitFn),
        ("20x25x12", $f::<U20, U25, U12> as $crate::runner::UnitFn),
        ("20x26x13", $f::<U20, U26, U13> as $crate::runner::UnitFn),
        ("20x27x14", $f::<U20, U27, U14> as $crate::runner::UnitFn),
        ("20x28x15", $f::<U20, U28, U15> as $crate::runner::UnitFn),
        ("20x29x16", $f::<U20, U29, U16> as $crate::runner::UnitFn),
        ("20x30x17", $f::<U20, U30, U17> as $crate::runner::UnitFn),
        ("20x31x18", $f::<U20, U31, U18> as $crate::runner::UnitFn),
        ("20x32x19", $f::<U20, U32, U19> as $crate::runner::UnitFn),
        ("21x0x21", $f::<U21, U0, U21> as $crate::runner::UnitFn),
        ("21x1x22", $f::<U21, U1, U22> as $crate::runner::UnitFn),
        ("21x2x23", $f::<U21, U2, U23> as $crate::runner::UnitFn),
        ("21x3x24", $f::<U21, U3, U24> as $crate::runner::UnitFn),
        ("21x4x25", $f::<U21, U4, U25> as $crate::runner::UnitFn),
        ("21x5x26", $f::<U21, U5, U26> as $crate::runner::UnitFn),
        ("21x6x27", $f::<U21, U6, U27> as $crate::runner::UnitFn),
        ("21x7x28", $f::<U21, U7, U28> as $crate::runner::UnitFn),
        ("21x8x29", $f::<U21, U8, U29> as $crate::runner::UnitFn),
        ("21x9x30", $f::<U21, U9, U30> as $crate::runner::UnitFn),
        ("21x10x31", $f::<U21, U10, U31> as $crate::runner::UnitFn),
        ("21x11x32", $f::<U21, U11, U32> as $crate::runner::UnitFn),
        ("21x12x0", $f::<U21, U12, U0> as $crate::runner::UnitFn),
        ("21x13x1", $f::<U21, U13, U1> as $crate::runner::UnitFn),
        ("21x14x2", $f::<U21, U14, U2> as $crate::runner::UnitFn),
        ("21x15x3", $f::<U21, U15, U3> as $crate::runner::UnitFn),
        ("21x16x4", $f::<U21, U16, U4> as $crate::runner::UnitFn),
        ("21x17x5", $f::<U21, U17, U5> as $crate::runner::UnitFn),
        ("21x18x6", $f::<U21, U18, U6> as $crate::runner::UnitFn),
        ("21x19x7", $f::<U21, U19, U7> as $crate::runner::UnitFn),
        ("21x20x8", $f::<U21, U20, U8> as $crate::runner::UnitFn),
        ("21x21x9", $f::<U21, U21, U9> as $crate::runner::UnitFn),
        ("21x22x10", $f::<U21, U22, U10> as $crate::runner::UnitFn),
        ("21x23x11", $f::<U21, U23, U11> as $crate::runner::UnitFn),
        ("21x24x12", $f::<U21, U24, U12> as $crate::runner::UnitFn),
        ("21x25x13", $f::<U21, U25, U13> as $crate::runner::UnitFn),
        ("21x26x14", $f::<U21, U26, U14> as $crate::runner::UnitFn),
        ("21x27x15", $f::<U21, U27, U15> as $crate::runner::UnitFn),
        ("21x28x16", $f::<U21, U28, U16> as $crate::runner::UnitFn),
        ("21x29x17", $f::<U21, U29, U17> as $crate::runner::UnitFn),
        ("21x30x18", $f::<U21, U30, U18> as $crate::runner::UnitFn),
        ("21x31x19", $f::<U21, U31, U19> as $crate::runner::UnitFn),
        ("21x32x20", $f::<U21, U32, U20> as $crate::runner::UnitFn),
        ("22x0x22", $f::<U22, U0, U22> as $crate::runner::UnitFn),
        ("22x1x23", $f::<U22, U1, U23> as $crate::runner::UnitFn),
        ("22x2x24", $f::<U22, U2, U24> as $crate::runner::UnitFn),
        ("22x3x25", $f::<U22, U3, U25> as $crate::runner::UnitFn),
        ("22x4x26", $f::<U22, U4, U26> as $crate::runner::UnitFn),
        ("22x5x27", $f::<U22, U5, U27> as $crate::runner::UnitFn),
        ("22x6x28", $f::<U22, U6, U28> as $crate::runner::UnitFn),
        ("22x7x29", $f::<U22, U7, U29> as $crate::runner::UnitFn),
        ("22x8x30", $f::<U22, U8, U30> as $crate::runner::UnitFn),
        ("22x9x31", $f::<U22, U9, U31> as $crate::runner::UnitFn),
        ("22x10x32", $f::<U22, U10, U32> as $crate::runner::UnitFn),
        ("22x11x0", $f::<U22, U11, U0> as $crate::runner::UnitFn),
        ("22x12x1", $f::<U22, U12, U1> as $crate::runner::UnitFn),
        ("22x13x2", $f::<U22, U13, U2> as $crate::runner::UnitFn),
        ("22x14x3", $f::<U22, U14, U3> as $crate::runner::UnitFn),
        ("22x15x4", $f::<U22, U15, U4> as $crate::runner::UnitFn),
        ("22x16x5", $f::<U22, U16, U5> as $crate::runner::UnitFn),
        ("22x17x6", $f::<U22, U17, U6> as $crate::runner::UnitFn),
        ("22x18x7", $f::<U22, U18, U7> as $crate::runner::UnitFn),
        ("22x19x8", $f::<U22, U19, U8> as $crate::runner::UnitFn),
        ("22x20x9", $f::<U22, U20, U9> as $crate::runner::UnitFn),
        ("22x21x10", $f::<U22, U21, U10> as $crate::runner::UnitFn),
        ("22x22x11", $f::<U22, U22, U11> as $crate::runner::UnitFn),
        ("22x23x12", $f::<U22, U23, U12> as $crate::runner::UnitFn),
        ("22x24x13", $f::<U22, U24, U13> as $crate::runner::UnitFn),
        ("22x25x14", $f::<U22, U25, U14> as $crate::runner::UnitFn),
        ("22x26x15", $f::<U22, U26, U15> as $crate::runner::UnitFn),
        ("22x27x16", $f::<U22, U27, U16> as $crate::runner::UnitFn),
        ("22x28x17", $f::<U22, U28, U17> as $crate::runner::UnitFn),
        ("22x29x18", $f::<U22, U29, U18> as $crate::runner::UnitFn),
        ("22x30x19", $f::<U22, U30, U19> as $crate::runner::UnitFn),
        ("22x31x20", $f::<U22, U31, U20> as $crate::runner::UnitFn),
        ("22x32x21", $f::<U22, U32, U21> as $crate::runner::UnitFn),
        ("23x0x23", $f::<U23, U0, U23> as $crate::runner::UnitFn),
        ("23x1x24", $f::<U23, U1, U24> as $crate::runner::UnitFn),
        ("23x2x25", $f::<U23, U2, U25> as $crate::runner::UnitFn),
        ("23x3x26", $f::<U23, U3, U26> as $crate::runner::UnitFn),
        ("23x4x27", $f::<U23, U4, U27> as $crate::runner::UnitFn),
        ("23x5x28", $f::<U23, U5, U28> as $crate::runner::UnitFn),
        ("23x6x29", $f::<U23, U6, U29> as $crate::runner::UnitFn),
        ("23x7x30", $f::<U23, U7, U30> as $crate::runner::UnitFn),
        ("23x8x31", $f::<U23, U8, U31> as $crate::runner::UnitFn),
        ("23x9x32", $f::<U23, U9, U32> as $crate::runner::UnitFn),
        ("23x10x0", $f::<U23, U10, U0> as $crate::runner::UnitFn),
        ("23x11x1", $f::<U23, U11, U1> as $crate::runner::UnitFn),
        ("23x12x2", $f::<U23, U12, U2> as $crate::runner::UnitFn),
        ("23x13x3", $f::<U23, U13, U3> as $crate::runner::UnitFn),
        ("23x14x4", $f::<U23, U14, U4> as $crate::runner::UnitFn),
        ("23x15x5", $f::<U23, U15, U5> as $crate::runner::UnitFn),
        ("23x16x6", $f::<U23, U16, U6> as $crate::runner::UnitFn),
        ("23x17x7", $f::<U23, U17, U7> as $crate::runner::UnitFn),
        ("23x18x8", $f::<U23, U18, U8> as $crate::runner::UnitFn),
        ("23x19x9", $f::<U23, U19, U9> as $crate::runner::UnitFn),
        ("23x20x10", $f::<U23, U20, U10> as $crate::runner::UnitFn),
        ("23x21x11", $f::<U23, U21, U11> as $crate::runner::UnitFn),
        ("23x22x12", $f::<U23, U22, U12> as $crate::runner::UnitFn),
        ("23x23x13", $f::<U23, U23, U13> as $crate::runner::UnitFn),
        ("23x24x14", $f::<U23, U24, U14> as $crate::runner::UnitFn),
        ("23x25x15", $f::<U23, U25, U15> as $crate::runner::UnitFn),
        ("23x26x16", $f::<U23, U26, U16> as $crate::runner::UnitFn),
        ("23x27x17", $f::<U23, U27, U17> as $crate::runner::UnitFn),
        ("23x28x18", $f::<U23, U28, U18> as $crate::runner::UnitFn),
        ("23x29x19", $f::<U23, U29, U19> as $crate::runner::UnitFn),
        ("23x30x20", $f::<U23, U30, U20> as $crate::runner::UnitFn),
        ("23x31x21", $f::<U23, U31, U21> as $crate::runner::UnitFn),
        ("23x32x22", $f::<U23, U32, U22> as $crate::runner::UnitFn),
        ("24x0x24", $f::<U24, U0, U24> as $crate::runner::UnitFn),
        ("24x1x25", $f::<U24, U1, U25> as $crate::runner::UnitFn),
        ("24x2x26", $f::<U24, U2, U26> as $crate::runner::UnitFn),
        ("24x3x27", $f::<U24, U3, U27> as $crate::runner::UnitFn),
        ("24x4x28", $f::<U24, U4, U28> as $crate::runner::UnitFn),
        ("24x5x29", $f::<U24, U5, U29> as $crate::runner::UnitFn),
        ("24x6x30", $f::<U24, U6, U30> as $crate::runner::UnitFn),
        ("24x7x31", $f::<U24, U7, U31> as $crate::runner::UnitFn),
        ("24x8x32", $f::<U24, U8, U32> as $crate::runner::UnitFn),
        ("24x9x0", $f::<U24, U9, U0> as $crate::runner::UnitFn),
        ("24x10x1", $f::<U24, U10, U1> as $crate::runner::UnitFn),
        ("24x11x2", $f::<U24, U11, U2> as $crate::runner::UnitFn),
        ("24x12x3", $f::<U24, U12, U3> as $crate::runner::UnitFn),
        ("24x13x4", $f::<U24, U13, U4> as $crate::runner::UnitFn),
        ("24x14x5", $f::<U24, U14, U5> as $crate::runner::UnitFn),
        ("24x15x6", $f::<U24, U15, U6> as $crate::runner::UnitFn),
        ("24x16x7", $f::<U24, U16, U7> as $crate::runner::UnitFn),
        ("24x17x8", $f::<U24, U17, U8> as $crate::runner::UnitFn),
        ("24x18x9", $f::<U24, U18, U9> as $crate::runner::UnitFn),
        ("24x19x10", $f::<U24, U19, U10> as $crate::runner::UnitFn),
        ("24x20x11", $f::<U24, U20, U11> as $crate::runner::UnitFn),
        ("24x21x12", $f::<U24, U21, U12> as $crate::runner::UnitFn),
        ("24x22x13", $f::<U24, U22, U13> as $crate::runner::UnitFn),
        ("24x23x14", $f::<U24, U23, U14> as $crate::runner::UnitFn),
        ("24x24x15", $f::<U24, U24, U15> as $crate::runner::UnitFn),
        ("24x25x16", $f::<U24, U25, U16> as $crate::runner::UnitFn),
        ("24x26x17", $f::<U24, U26, U17> as $crate::runner::UnitFn),
        ("24x27x18", $f::<U24, U27, U18> as $crate::runner::UnitFn),
        ("24x28x19", $f::<U24, U28, U19> as $crate::runner::UnitFn),
        ("24x29x20", $f::<U24, U29, U20> as $crate::runner::UnitFn),
        ("24x30x21", $f::<U24, U30, U21> as $crate::runner::UnitFn),
        ("24x31x22", $f::<U24, U31, U22> as $crate::runner::UnitFn),
        ("24x32x23", $f::<U24, U32, U23> as $crate::runner::UnitFn),
        ("25x0x25", $f::<U25, U0, U25> as $crate::runner::UnitFn),
        ("25x1x26", $f::<U25, U1, U26> as $crate::runner::UnitFn),
        ("25x2x27", $f::<U25, U2, U27> as $crate::runner::UnitFn),
        ("25x3x28", $f::<U25, U3, U28> as $crate::runner::UnitFn),
        ("25x4x29", $f::<U25, U4, U29> as $crate::runner::UnitFn),
        ("25x5x30", $f::<U25, U5, U30> as $crate::runner::UnitFn),
        ("25x6x31", $f::<U25, U6, U31> as $crate::runner::UnitFn),
        ("25x7x32", $f::<U25, U7, U32> as $crate::runner::UnitFn),
        ("25x8x0", $f::<U25, U8, U0> as $crate::runner::UnitFn),
        ("25x9x1", $f::<U25, U9, U1> as $crate::runner::UnitFn),
        ("25x10x2", $f::<U25, U10, U2> as $crate::runner::UnitFn),
        ("25x11x3", $f::<U25, U11, U3> as $crate::runner::UnitFn),
        ("25x12x4", $f::<U25, U12, U4> as $crate::runner::UnitFn),
        ("25x13x5", $f::<U25, U13, U5> as $crate::runner::UnitFn),
        ("25x14x6", $f::<U25, U14, U6> as $crate::runner::UnitFn),
        ("25x15x7", $f::<U25, U15, U7> as $crate::runner::UnitFn),
        ("25x16x8", $f::<U25, U16, U8> as $crate::runner::UnitFn),
        ("25x17x9", $f::<U25, U17, U9> as $crate::runner::UnitFn),
        ("25x18x10", $f::<U25, U18, U10> as $crate::runner::UnitFn),
        ("25x19x11", $f::<U25, U19, U11> as $crate::runner::UnitFn),
        ("25x20x12", $f::<U25, U20, U12> as $crate::runner::UnitFn),
        ("25x21x13", $f::<U25, U21, U13> as $crate::runner::UnitFn),
        ("25x22x14", $f::<U25, U22, U14> as $crate::runner::UnitFn),
        ("25x23x15", $f::<U25, U23, U15> as $crate::runner::UnitFn),
        ("25x24x16", $f::<U25, U24, U16> as $crate::runner::UnitFn),
        ("25x25x17", $f::<U25, U25, U17> as $crate::runner::UnitFn),
        ("25x26x18", $f::<U25, U26, U18> as $crate::runner::UnitFn),
        ("25x27x19", $f::<U25, U27, U19> as $crate::runner::UnitFn),
        ("25x28x20", $f::<U25, U28, U20> as $crate::runner::UnitFn),
        ("25x29x21", $f::<U25, U29, U21> as $crate::runner::UnitFn),
        ("25x30x22", $f::<U25, U30, U22> as $crate::runner::UnitFn),
        ("25x31x23", $f::<U25, U31, U23> as $crate::runner::UnitFn),
        ("25x32x24", $f::<U25, U32, U24> as $crate::runner::UnitFn),
        ("26x0x26", $f::<U26, U0, U26> as $crate::runner::UnitFn),
        ("26x1x27", $f::<U26, U1, U27> as $crate::runner::UnitFn),
        ("26x2x28", $f::<U26, U2, U28> as $crate::runner::UnitFn),
        ("26x3x29", $f::<U26, U3, U29> as $crate::runner::UnitFn),
        ("26x4x30", $f::<U26, U4, U30> as $crate::runner::UnitFn),
        ("26x5x31", $f::<U26, U5, U31> as $crate::runner::UnitFn),
        ("26x6x32", $f::<U26, U6, U32> as $crate::runner::UnitFn),
        ("26x7x0", $f::<U26, U7, U0> as $crate::runner::UnitFn),
        ("26x8x1", $f::<U26, U8, U1> as $crate::runner::UnitFn),
        ("26x9x2", $f::<U26, U9, U2> as $crate::runner::UnitFn),
        ("26x10x3", $f::<U26, U10, U3> as $crate::runner::UnitFn),
        ("26x11x4", $f::<U26, U11, U4> as $crate::runner::UnitFn),
        ("26x12x5", $f::<U26, U12, U5> as $crate::runner::UnitFn),
        ("26x13x6", $f::<U26, U13, U6> as $crate::runner::UnitFn),
        ("26x14x7", $f::<U26, U14, U7> as $crate::runner::UnitFn),
        ("26x15x8", $f::<U26, U15, U8> as $crate::runner::UnitFn),
        ("26x16x9", $f::<U26, U16, U9> as $crate::runner::UnitFn),
        ("26x17x10", $f::<U26, U17, U10> as $crate::runner::UnitFn),
        ("26x18x11", $f::<U26, U18, U11> as $crate::runner::UnitFn),
        ("26x19x12", $f::<U26, U19, U12> as $crate::runner::UnitFn),
        ("26x20x13", $f::<U26, U20, U13> as $crate::runner::UnitFn),
        ("26x21x14", $f::<U26, U21, U14> as $crate::runner::UnitFn),
        ("26x22x15", $f::<U26, U22, U15> as $crate::runner::UnitFn),
        ("26x23x16", $f::<U26, U23, U16> as $crate::runner::UnitFn),
        ("26x24x17", $f::<U26, U24, U17> as $crate::runner::UnitFn),
        ("26x25x18", $f::<U26, U25, U18> as $crate::runner::UnitFn),
        ("26x26x19", $f::<U26, U26, U19> as $crate::runner::UnitFn),
        ("26x27x20", $f::<U26, U27, U20> as $crate::runner::UnitFn),
        ("26x28x21", $f::<U26, U28, U21> as $crate::runner::UnitFn),
        ("26x29x22", $f::<U26, U29, U22> as $crate::runner::UnitFn),
        ("26x30x23", $f::<U26, U30, U23> as $crate::runner::UnitFn),
        ("26x31x24", $f::<U26, U31, U24> as $crate::runner::UnitFn),
        ("26x32x25", $f::<U26, U32, U25> as $crate::runner::UnitFn),
        ("27x0x27", $f::<U27, U0, U27> as $crate::runner::UnitFn),
        ("27x1x28", $f::<U27, U1, U28> as $crate::runner::UnitFn),
        ("27x2x29", $f::<U27, U2, U29> as $crate::runner::UnitFn),
        ("27x3x30", $f::<U27, U3, U30> as $crate::runner::UnitFn),
        ("27x4x31", $f::<U27, U4, U31> as $crate::runner::UnitFn),
        ("27x5x32", $f::<U27, U5, U32> as $crate::runner::UnitFn),
        ("27x6x0", $f::<U27, U6, U0> as $crate::runner::UnitFn),
        ("27x7x1", $f::<U27, U7, U1> as $crate::runner::UnitFn),
        ("27x8x2", $f::<U27, U8, U2> as $crate::runner::UnitFn),
        ("27x9x3", $f::<U27, U9, U3> as $crate::runner::UnitFn),
        ("27x10x4", $f::<U27, U10, U4> as $crate::runner::UnitFn),
        ("27x11x5", $f::<U27, U11, U5> as $crate::runner::UnitFn),
        ("27x12x6", $f::<U27, U12, U6> as $crate::runner::UnitFn),
        ("27x13x7", $f::<U27, U13, U7> as $crate::runner::UnitFn),
        ("27x14x8", $f::<U27, U14, U8> as $crate::runner::UnitFn),
        ("27x15x9", $f::<U27, U15, U9> as $crate::runner::UnitFn),
        ("27x16x10", $f::<U27, U16, U10> as $crate::runner::UnitFn),
        ("27x17x11", $f::<U27, U17, U11> as $crate::runner::UnitFn),
        ("27x18x12", $f::<U27, U18, U12> as $crate::runner::UnitFn),
        ("27x19x13", $f::<U27, U19, U13> as $crate::runner::UnitFn),
        ("27x20x14", $f::<U27, U20, U14> as $crate::runner::UnitFn),
        ("27x21x15", $f::<U27, U21, U15> as $crate::runner::UnitFn),
        ("27x22x16", $f::<U27, U22, U16> as $crate::runner::UnitFn),
        ("27x23x17", $f::<U27, U23, U17> as $crate::runner::UnitFn),
        ("27x24x18", $f::<U27, U24, U18> as $crate::runner::UnitFn),
        ("27x25x19", $f::<U27, U25, U19> as $crate::runner::UnitFn),
        ("27x26x20", $f::<U27, U26, U20> as $crate::runner::UnitFn),
        ("27x27x21", $f::<U27, U27, U21> as $crate::runner::UnitFn),
        ("27x28x22", $f::<U27, U28, U22> as $crate::runner::UnitFn),
        ("27x29x23", $f::<U27, U29, U23> as $crate::runner::UnitFn),
        ("27x30x24", $f::<U27, U30, U24> as $crate::runner::UnitFn),
        ("27x31x25", $f::<U27, U31, U25> as $crate::runner::UnitFn),
        ("27x32x26", $f::<U27, U32, U26> as $crate::runner::UnitFn),
        ("28x0x28", $f::<U28, U0, U28> as $crate::runner::UnitFn),
        ("28x1x29", $f::<U28, U1, U29> as $crate::runner::UnitFn),
        ("28x2x30", $f::<U28, U2, U30> as $crate::runner::UnitFn),
        ("28x3x31", $f::<U28, U3, U31> as $crate::runner::UnitFn),
        ("28x4x32", $f::<U28, U4, U32> as $crate::runner::UnitFn),
        ("28x5x0", $f::<U28, U5, U0> as $crate::runner::UnitFn),
        ("28x6x1", $f::<U28, U6, U1> as $crate::runner::UnitFn),
        ("28x7x2", $f::<U28, U7, U2> as $crate::runner::UnitFn),
        ("28x8x3", $f::<U28, U8, U3> as $crate::runner::UnitFn),
        ("28x9x4", $f::<U28, U9, U4> as $crate::runner::UnitFn),
        ("28x10x5", $f::<U28, U10, U5> as $crate::runner::UnitFn),
        ("28x11x6", $f::<U28, U11, U6> as $crate::runner::UnitFn),
        ("28x12x7", $f::<U28, U12, U7> as $crate::runner::UnitFn),
        ("28x13x8", $f::<U28, U13, U8> as $crate::runner::UnitFn),
        ("28x14x9", $f::<U28, U14, U9> as $crate::runner::UnitFn),
        ("28x15x10", $f::<U28, U15, U10> as $crate::runner::UnitFn),
        ("28x16x11", $f::<U28, U16, U11> as $crate::runner::UnitFn),
        ("28x17x12", $f::<U28, U17, U12> as $crate::runner::UnitFn),
        ("28x18x13", $f::<U28, U18, U13> as $crate::runner::UnitFn),
        ("28x19x14", $f::<U28, U19, U14> as $crate::runner::UnitFn),
        ("28x20x15", $f::<U28, U20, U15> as $crate::runner::UnitFn),
        ("28x21x16", $f::<U28, U21, U16> as $crate::runner::UnitFn),
        ("28x22x17", $f::<U28, U22, U17> as $crate::runner::UnitFn),
        ("28x23x18", $f::<U28, U23, U18> as $crate::runner::UnitFn),
        ("28x24x19", $f::<U28, U24, U19> as $crate::runner::UnitFn),
        ("28x25x20", $f::<U28, U25, U20> as $crate::runner::UnitFn),
        ("28x26x21", $f::<U28, U26, U21> as $crate::runner::UnitFn),
        ("28x27x22", $f::<U28, U27, U22> as $crate::runner::UnitFn),
        ("28x28x23", $f::<U28, U28, U23> as $crate::runner::UnitFn),
        ("28x29x24", $f::<U28, U29, U24> as $crate::runner::UnitFn),
        ("28x30x25", $f::<U28, U30, U25> as $crate::runner::UnitFn),
        ("28x31x26", $f::<U28, U31, U26> as $crate::runner::UnitFn),
        ("28x32x27", $f::<U28, U32, U27> as $crate::runner::UnitFn),
        ("29x0x29", $f::<U29, U0, U29> as $crate::runner::UnitFn),
        ("29x1x30", $f::<U29, U1, U30> as $crate::runner::UnitFn),
        ("29x2x31", $f::<U29, U2, U31> as $crate::runner::UnitFn),
        ("29x3x32", $f::<U29, U3, U32> as $crate::runner::UnitFn),
        ("29x4x0", $f::<U29, U4, U0> as $crate::runner::UnitFn),
        ("29x5x1", $f::<U29, U5, U1> as $crate::runner::UnitFn),
        ("29x6x2", $f::<U29, U6, U2> as $crate::runner::UnitFn),
        ("29x7x3", $f::<U29, U7, U3> as $crate::runner::UnitFn),
        ("29x8x4", $f::<U29, U8, U4> as $crate::runner::UnitFn),
        ("29x9x5", $f::<U29, U9, U5> as $crate::runner::UnitFn),
        ("29x10x6", $f::<U29, U10, U6> as $crate::runner::UnitFn),
        ("29x11x7", $f::<U29, U11, U7> as $crate::runner::UnitFn),
        ("29x12x8", $f::<U29, U12, U8> as $crate::runner::UnitFn),
        ("29x13x9", $f::<U29, U13, U9> as $crate::runner::UnitFn),
        ("29x14x10", $f::<U29, U14, U10> as $crate::runner::UnitFn),
        ("29x15x11", $f::<U29, U15, U11> as $crate::runner::UnitFn),
        ("29x16x12", $f::<U29, U16, U12> as $crate::runner::UnitFn),
        ("29x17x13", $f::<U29, U17, U13> as $crate::runner::UnitFn),
        ("29x18x14", $f::<U29, U18, U14> as $crate::runner::UnitFn),
        ("29x19x15", $f::<U29, U19, U15> as $crate::runner::UnitFn),
        ("29x20x16", $f::<U29, U20, U16> as $crate::runner::UnitFn),
        ("29x21x17", $f::<U29, U21, U17> as $crate::runner::UnitFn),
        ("29x22x18", $f::<U29, U22, U18> as $crate::runner::UnitFn),
        ("29x23x19", $f::<U29, U23, U19> as $crate::runner::UnitFn),
        ("29x24x20", $f::<U29, U24, U20> as $crate::runner::UnitFn),
        ("29x25x21", $f::<U29, U25, U21> as $crate::runner::UnitFn),
        ("29x26x22", $f::<U29, U26, U22> as $crate::runner::UnitFn),
        ("29x27x23", $f::<U29, U27, U23> as $crate::runner::UnitFn),
        ("29x28x24", $f::<U29, U28, U24> as $crate::runner::UnitFn),
        ("29x29x25", $f::<U29, U29, U25> as $crate::runner::UnitFn),
        ("29x30x26", $f::<U29, U30, U26> as $crate::runner::UnitFn),
        ("29x31x27", $f::<U29, U31, U27> as $crate::runner::UnitFn),
        ("29x32x28", $f::<U29, U32, U28> as $crate::runner::UnitFn),
        ("30x0x30", $f::<U30, U0, U30> as $crate::runner::UnitFn),
        ("30x1x31", $f::<U30, U1, U31> as $crate::runner::UnitFn),
        ("30x2x32", $f::<U30, U2, U32> as $crate::runner::UnitFn),
        ("30x3x0", $f::<U30, U3, U0> as $crate::runner::UnitFn),
        ("30x4x1", $f::<U30, U4, U1> as $crate::runner::UnitFn),
        ("30x5x2", $f::<U30, U5, U2> as $crate::runner::UnitFn),
        ("30x6x3", $f::<U30, U6, U3> as $crate::runner::UnitFn),
        ("30x7x4", $f::<U30, U7, U4> as $crate::runner::UnitFn),
        ("30x8x5", $f::<U30, U8, U5> as $crate::runner::UnitFn),
        ("30x9x6", $f::<U30, U9, U6> as $crate::runner::UnitFn),
        ("30x10x7", $f::<U30, U10, U7> as $crate::runner::UnitFn),
        ("30x11x8", $f::<U30, U11, U8> as $crate::runner::UnitFn),
        ("30x12x9", $f::<U30, U12, U9> as $crate::runner::UnitFn),
        ("30x13x10", $f::<U30, U13, U10> as $crate::runner::UnitFn),
        ("30x14x11", $f::<U30, U14, U11> as $crate::runner::UnitFn),
        ("30x15x12", $f::<U30, U15, U12> as $crate::runner::UnitFn),
        ("30x16x13", $f::<U30, U16, U13> as $crate::runner::UnitFn),
        ("30x17x14", $f::<U30, U17, U14> as $crate::runner::UnitFn),
        ("30x18x15", $f::<U30, U18, U15> as $crate::runner::UnitFn),
        ("30x19x16", $f::<U30, U19, U16> as $crate::runner::UnitFn),
        ("30x20x17", $f::<U30, U20, U17> as $crate::runner::UnitFn),
        ("30x21x18", $f::<U30, U21, U18> as $crate::runner::UnitFn),
        ("30x22x19", $f::<U30, U22, U19> as $crate::runner::UnitFn),
        ("30x23x20", $f::<U30, U23, U20> as $crate::runner::UnitFn),
        ("30x24x21", $f::<U30, U24, U21> as $crate::runner::UnitFn),
        ("30x25x22", $f::<U30, U25, U22> as $crate::runner::UnitFn),
        ("30x26x23", $f::<U30, U26, U23> as $crate::runner::UnitFn),
        ("30x27x24", $f::<U30, U27, U24> as $crate::runner::UnitFn),
        ("30x28x25", $f::<U30, U28, U25> as $crate::runner::UnitFn),
        ("30x29x26", $f::<U30, U29, U26> as $crate::runner::UnitFn),
        ("30x30x27", $f::<U30, U30, U27> as $crate::runner::UnitFn),
        ("30x31x28", $f::<U30, U31, U28> as $crate::runner::UnitFn),
        ("30x32x29", $f::<U30, U32, U29> as $crate::runner::UnitFn),
        ("31x0x31", $f::<U31, U0, U31> as $crate::runner::UnitFn),
        ("31x1x32", $f::<U31, U1, U32> as $crate::runner::UnitFn),
        ("31x2x0", $f::<U31, U2, U0> as $crate::runner::UnitFn),
        ("31x3x1", $f::<U31, U3, U1> as $crate::runner::UnitFn),
        ("31x4x2", $f::<U31, U4, U2> as $crate::runner::UnitFn),
        ("31x5x3", $f::<U31, U5, U3> as $crate::runner::UnitFn),
        ("31x6x4", $f::<U31, U6, U4> as $crate::runner::UnitFn),
        ("31x7x5", $f::<U31, U7, U5> as $crate::runner::UnitFn),
        ("31x8x6", $f::<U31, U8, U6> as $crate::runner::UnitFn),
        ("31x9x7", $f::<U31, U9, U7> as $crate::runner::UnitFn),
        ("31x10x8", $f::<U31, U10, U8> as $crate::runner::UnitFn),
        ("31x11x9", $f::<U31, U11, U9> as $crate::runner::UnitFn),
        ("31x12x10", $f::<U31, U12, U10> as $crate::runner::UnitFn),
        ("31x13x11", $f::<U31, U13, U11> as $crate::runner::UnitFn),
        ("31x14x12", $f::<U31, U14, U12> as $crate::runner::UnitFn),
        ("31x15x13", $f::<U31, U15, U13> as $crate::runner::UnitFn),
        ("31x16x14", $f::<U31, U16, U14> as $crate::runner::UnitFn),
        ("31x17x15", $f::<U31, U17, U15> as $crate::runner::UnitFn),
        ("31x18x16", $f::<U31, U18, U16> as $crate::runner::UnitFn),
        ("31x19x17", $f::<U31, U19, U17> as $crate::runner::UnitFn),
        ("31x20x18", $f::<U31, U20, U18> as $crate::runner::UnitFn),
        ("31x21x19", $f::<U31, U21, U19> as $crate::runner::UnitFn),
        ("31x22x20", $f::<U31, U22, U20> as $crate::runner::UnitFn),
        ("31x23x21", $f::<U31, U23, U21> as $crate::runner::UnitFn),
        ("31x24x22", $f::<U31, U24, U22> as $crate::runner::UnitFn),
        ("31x25x23", $f::<U31, U25, U23> as $crate::runner::UnitFn),
        ("31x26x24", $f::<U31, U26, U24> as $crate::runner::UnitFn),
        ("31x27x25", $f::<U31, U27, U25> as $crate::runner::UnitFn),
        ("31x28x26", $f::<U31, U28, U26> as $crate::runner::UnitFn),
        ("31x29x27", $f::<U31, U29, U27> as $crate::runner::UnitFn),
        ("31x30x28", $f::<U31, U30, U28> as $crate::runner::UnitFn),
        ("31x31x29", $f::<U31, U31, U29> as $crate::runner::UnitFn),
        ("31x32x30", $f::<U31, U32, U30> as $crate::runner::UnitFn),
        ("32x0x32", $f::<U32, U0, U32> as $crate::runner::UnitFn),
        ("32x1x0", $f::<U32, U1, U0> as $crate::runner::UnitFn),
        ("32x2x1", $f::<U32, U2, U1> as $crate::runner::UnitFn),
        ("32x3x2", $f::<U32, U3, U2> as $crate::runner::UnitFn),
        ("32x4x3", $f::<U32, U4, U3> as $crate::runner::UnitFn),
        ("32x5x4", $f::<U32, U5, U4> as $crate::runner::UnitFn),
        ("32x6x5", $f::<U32, U6, U5> as $crate::runner::UnitFn),
        ("32x7x6", $f::<U32, U7, U6> as $crate::runner::UnitFn),
        ("32x8x7", $f::<U32, U8, U7> as $crate::runner::UnitFn),
        ("32x9x8", $f::<U32, U9, U8> as $crate::runner::UnitFn),
        ("32x10x9", $f::<U32, U10, U9> as $crate::runner::UnitFn),
        ("32x11x10", $f::<U32, U11, U10> as $crate::runner::UnitFn),
        ("32x12x11", $f::<U32, U12, U11> as $crate::runner::UnitFn),
        ("32x13x12", $f::<U32, U13, U12> as $crate::runner::UnitFn),
        ("32x14x13", $f::<U32, U14, U13> as $crate::runner::UnitFn),
        ("32x15x14", $f::<U32, U15, U14> as $crate::runner::UnitFn),
        ("32x16x15", $f::<U32, U16, U15> as $crate::runner::UnitFn),
        ("32x17x16", $f::<U32, U17, U16> as $crate::runner::UnitFn),
        ("32x18x17", $f::<U32, U18, U17> as $crate::runner::UnitFn),
        ("32x19x18", $f::<U32, U19, U18> as $crate::runner::UnitFn),
        ("32x20x19", $f::<U32, U20, U19> as $crate::runner::UnitFn),
        ("32x21x20", $f::<U32, U21, U20> as $crate::runner::UnitFn),
        ("32x22x21", $f::<U32, U22, U21> as $crate::runner::UnitFn),
        ("32x23x22", $f::<U32, U23, U22> as $crate::runner::UnitFn),
        ("32x24x23", $f::<U32, U24, U23> as $crate::runner::UnitFn),
        ("32x25x24", $f::<U32, U25, U24> as $crate::runner::UnitFn),
        ("32x26x25", $f::<U32, U26, U25> as $crate::runner::UnitFn),
        ("32x27x26", $f::<U32, U27, U26> as $crate::runner::UnitFn),
        ("32x28x27", $f::<U32, U28, U27> as $crate::runner::UnitFn),
        ("32x29x28", $f::<U32, U29, U28> as $crate::runner::UnitFn),
        ("32x30x29", $f::<U32, U30, U29> as $crate::runner::UnitFn),
        ("32x31x30", $f::<U32, U31, U30> as $crate::runner::UnitFn),
        ("32x32x31", $f::<U32, U32, U31> as $crate::runner::UnitFn),
    ] };
    ($f:ident, $e:ty) => { &[
        ("0x0x0", $f::<$e, U0, U0, U0> as $crate::runner::UnitFn),
        ("0x1x1", $f::<$e, U0, U1, U1> as $crate::runner::UnitFn),
        ("0x2x2", $f::<$e, U0, U2, U2> as $crate::runner::UnitFn),
        ("0x3x3", $f::<$e, U0, U3, U3> as $crate::runner::UnitFn),
        ("0x4x4", $f::<$e, U0, U4, U4> as $crate::runner::UnitFn),
        ("0x5x5", $f::<$e, U0, U5, U5> as $crate::runner::UnitFn),
        ("0x6x6", $f::<$e, U0, U6, U6> as $crate::runner::UnitFn),
        ("0x7x7", $f::<$e, U0, U7, U7> as $crate::runner::UnitFn),
        ("0x8x8", $f::<$e, U0, U8, U8> as $crate::runner::UnitFn),
        ("0x9x9", $f::<$e, U0, U9, U9> as $crate::runner::UnitFn),
        ("0x10x10", $f::<$e, U0, U10, U10> as $crate::runner::UnitFn),
        ("0x11x11", $f::<$e, U0, U11, U11> as $crate::runner::UnitFn),
        ("0x12x12", $f::<$e, U0, U12, U12> as $crate::runner::UnitFn),
        ("0x13x13", $f::<$e, U0, U13, U13> as $crate::runner::UnitFn),
        ("0x14x14", $f::<$e, U0, U14, U14> as $crate::runner::UnitFn),
        ("0x15x15", $f::<$e, U0, U15, U15> as $crate::runner::UnitFn),
        ("0x16x16", $f::<$e, U0, U16, U16> as $crate::runner::UnitFn),
        ("0x17x17", $f::<$e, U0, U17, U17> as $crate::runner::UnitFn),
        ("0x18x18", $f::<$e, U0, U18, U18> as $crate::runner::UnitFn),
        ("0x19x19", $f::<$e, U0, U19, U19> as $crate::runner::UnitFn),
        ("0x20x20", $f::<$e, U0, U20, U20> as $crate::runner::UnitFn),
        ("0x21x21", $f::<$e, U0, U21, U21> as $crate::runner::UnitFn),
        ("0x22x22", $f::<$e, U0, U22, U22> as $crate::runner::UnitFn),
        ("0x23x23", $f::<$e, U0, U23, U23> as $crate::runner::UnitFn),
        ("0x24x24", $f::<$e, U0, U24, U24> as $crate::runner::UnitFn),
        ("0x25x25", $f::<$e, U0, U25, U25> as $crate::runner::UnitFn),
        ("0x26x26", $f::<$e, U0, U26, U26> as $crate::runner::UnitFn),
        ("0x27x27", $f::<$e, U0, U27, U27> as $crate::runner::UnitFn),
        ("0x28x28", $f::<$e, U0, U28, U28> as $crate::runner::UnitFn),
        ("0x29x29", $f::<$e, U0, U29, U29> as $crate::runner::UnitFn),
        ("0x30x30", $f::<$e, U0, U30, U30> as $crate::runner::UnitFn),
        ("0x31x31", $f::<$e, U0, U31, U31> as $crate::runner::UnitFn),
        ("0x32x32", $f::<$e, U0, U32, U32> as $crate::runner::UnitFn),
        ("1x0x1", $f::<$e, U1, U0, U1> as $crate::runner::UnitFn),
        ("1x1x2", $f::<$e, U1, U1, U2> as $crate::runner::UnitFn),
        ("1x2x3", $f::<$e, U1, U2, U3> as $crate::runner::UnitFn),
        ("1x3x4", $f::<$e, U1, U3, U4> as $crate::runner::UnitFn),
        ("1x4x5", $f::<$e, U1, U4, U5> as $crate::runner::UnitFn),
        ("1x5x6", $f::<$e, U1, U5, U6> as $crate::runner::UnitFn),
        ("1x6x7", $f::<$e, U1, U6, U7> as $crate::runner::UnitFn),
        ("1x7x8", $f::<$e, U1, U7, U8> as $crate::runner::UnitFn),
        ("1x8x9", $f::<$e, U1, U8, U9> as $crate::runner::UnitFn),
        ("1x9x10", $f::<$e, U1, U9, U10> as $crate::runner::UnitFn),
        ("1x10x11", $f::<$e, U1, U10, U11> as $crate::runner::UnitFn),
        ("1x11x12", $f::<$e, U1, U11, U12> as $crate::runner::UnitFn),
        ("1x12x13", $f::<$e, U1, U12, U13> as $crate::runner::UnitFn),
        ("1x13x14", $f::<$e, U1, U13, U14> as $crate::runner::UnitFn),
        ("1x14x15", $f::<$e, U1, U14, U15> as $crate::runner::UnitFn),
        ("1x15x16", $f::<$e, U1, U15, U16> as $crate::runner::UnitFn),
        ("1x16x17", $f::<$e, U1, U16, U17> as $crate::runner::UnitFn),
        ("1x17x18", $f::<$e, U1, U17, U18> as $crate::runner::UnitFn),
        ("1x18x19", $f::<$e, U1, U18, U19> as $crate::runner::UnitFn),
        ("1x19x20", $f::<$e, U1, U19, U20> as $crate::runner::UnitFn),
        ("1x20x21", $f::<$e, U1, U20, U21> as $crate::runner::UnitFn),
        ("1x21x22", $f::<$e, U1, U21, U22> as $crate::runner::UnitFn),
        ("1x22x23", $f::<$e, U1, U22, U23> as $crate::runner::UnitFn),
        ("1x23x24", $f::<$e, U1, U23, U24> as $crate::runner::UnitFn),
        ("1x24x25", $f::<$e, U1, U24, U25> as $crate::runner::UnitFn),
        ("1x25x26", $f::<$e, U1, U25, U26> as $crate::runner::UnitFn),
        ("1x26x27", $f::<$e, U1, U26, U27> as $crate::runner::UnitFn),
        ("1x27x28", $f::<$e, U1, U27, U28> as $crate::runner::UnitFn),
        ("1x28x29", $f::<$e, U1, U28, U29> as $crate::runner::UnitFn),
        ("1x29x30", $f::<$e, U1, U29, U30> as $crate::runner::UnitFn),
        ("1x30x31", $f::<$e, U1, U30, U31> as $crate::runner::UnitFn),
        ("1x31x32", $f::<$e, U1, U31, U32> as $crate::runner::UnitFn),
        ("1x32x0", $f::<$e, U1, U32, U0> as $crate::runner::UnitFn),
        ("2x0x2", $f::<$e, U2, U0, U2> as $crate::runner::UnitFn),
        ("2x1x3", $f::<$e, U2, U1, U3> as $crate::runner::UnitFn),
        ("2x2x4", $f::<$e, U2, U2, U4> as $crate::runner::UnitFn),
        ("2x3x5", $f::<$e, U2, U3, U5> as $crate::runner::UnitFn),
        ("2x4x6", $f::<$e, U2, U4, U6> as $crate::runner::UnitFn),
        ("2x5x7", $f::<$e, U2, U5, U7> as $crate::runner::UnitFn),
        ("2x6x8", $f::<$e, U2, U6, U8> as $crate::runner::UnitFn),
        ("2x7x9", $f::<$e, U2, U7, U9> as $crate::runner::UnitFn),
        ("2x8x10", $f::<$e, U2, U8, U10> as $crate::runner::UnitFn),
        ("2x9x11", $f::<$e, U2, U9, U11> as $crate::runner::UnitFn),
        ("2x10x12", $f::<$e, U2, U10, U12> as $crate::runner::UnitFn),
        ("2x11x13", $f::<$e, U2, U11, U13> as $crate::runner::UnitFn),
        ("2x12x14", $f::<$e, U2, U12, U14> as $crate::runner::UnitFn),
        ("2x13x15", $f::<$e, U2, U13, U15> as $crate::runner::UnitFn),
        ("2x14x16", $f::<$e, U2, U14, U16> as $crate::runner::UnitFn),
        ("2x15x17", $f::<$e, U2, U15, U17> as $crate::runner::UnitFn),
        ("2x16x18", $f::<$e, U2, U16, U18> as $crate::runner::UnitFn),
        ("2x17x19", $f::<$e, U2, U17, U19> as $crate::runner::UnitFn),
        ("2x18x20", $f::<$e, U2, U18, U20> as $crate::runner::UnitFn),
        ("2x19x21", $f::<$e, U2, U19, U21> as $crate::runner::UnitFn),
        ("2x20x22", $f::<$e, U2, U20, U22> as $crate::runner::UnitFn),
        ("2x21x23", $f::<$e, U2, U21, U23> as $crate::runner::UnitFn),
        ("2x22x24", $f::<$e, U2, U22, U24> as $crate::runner::UnitFn),
        ("2x23x25", $f::<$e, U2, U23, U25> as $crate::runner::UnitFn),
        ("2x24x26", $f::<$e, U2, U24, U26> as $crate::runner::UnitFn),
        ("2x25x27", $f::<$e, U2, U25, U27> as $crate::runner::UnitFn),
        ("2x26x28", $f::<$e, U2, U26, U28> as $crate::runner::UnitFn),
        ("2x27x29", $f::<$e, U2, U27, U29> as $crate::runner::UnitFn),
        ("2x28x30", $f::<$e, U2, U28, U30> as $crate::runner::UnitFn),
        ("2x29x31", $f::<$e, U2, U29, U31> as $crate::runner::UnitFn),
        ("2x30x32", $f::<$e, U2, U30, U32> as $crate::runner::UnitFn),
        ("2x31x0", $f::<$e, U2, U31, U0> as $crate::runner::UnitFn),
        ("2x32x1", $f::<$e, U2, U32, U1> as $crate::runner::UnitFn),
        ("3x0x3", $f::<$e, U3, U0, U3> as $crate::runner::UnitFn),
        ("3x1x4", $f::<$e, U3, U1, U4> as $crate::runner::UnitFn),
        ("3x2x5", $f::<$e, U3, U2, U5> as $crate::runner::UnitFn),
        ("3x3x6", $f::<$e, U3, U3, U6> as $crate::runner::UnitFn),
        ("3x4x7", $f::<$e, U3, U4, U7> as $crate::runner::UnitFn),
        ("3x5x8", $f::<$e, U3, U5, U8> as $crate::runner::UnitFn),
        ("3x6x9", $f::<$e, U3, U6, U9> as $crate::runner::UnitFn),
        ("3x7x10", $f::<$e, U3, U7, U10> as $crate::runner::UnitFn),
        ("3x8x11", $f::<$e, U3, U8, U11> as $crate::runner::UnitFn),
        ("3x9x12", $f::<$e, U3, U9, U12> as $crate::runner::UnitFn),
        ("3x10x13", $f::<$e, U3, U10, U13> as $crate::runner::UnitFn),
        ("3x11x14", $f::<$e, U3, U11, U14> as $crate::runner::UnitFn),
        ("3x12x15", $f::<$e, U3, U12, U15> as $crate::runner::UnitFn),
        ("3x13x16", $f::<$e, U3, U13, U16> as $crate::runner::UnitFn),
        ("3x14x17", $f::<$e, U3, U14, U17> as $crate::runner::UnitFn),
        ("3x15x18", $f::<$e, U3, U15, U18> as $crate::runner::UnitFn),
        ("3x16x19", $f::<$e, U3, U16, U19> as $crate::runner::UnitFn),
        ("3x17x20", $f::<$e, U3, U17, U20> as $crate::runner::UnitFn),
        ("3x18x21", $f::<$e, U3, U18, U21> as $crate::runner::UnitFn),
        ("3x19x22", $f::<$e, U3, U19, U22> as $crate::runner::UnitFn),
        ("3x20x23", $f::<$e, U3, U20, U23> as $crate::runner::UnitFn),
        ("3x21x24", $f::<$e, U3, U21, U24> as $crate::runner::UnitFn),
        ("3x22x25", $f::<$e, U3, U22, U25> as $crate::runner::UnitFn),
        ("3x23x26", $f::<$e, U3, U23, U26> as $crate::runner::UnitFn),
        ("3x24x27", $f::<$e, U3, U24, U27> as $crate::runner::UnitFn),
        ("3x25x28", $f::<$e, U3, U25, U28> as $crate::runner::UnitFn),
        ("3x26x29", $f::<$e, U3, U26, U29> as $crate::runner::UnitFn),
        ("3x27x30", $f::<$e, U3, U27, U30> as $crate::runner::UnitFn),
        ("3x28x31", $f::<$e, U3, U28, U31> as $crate::runner::UnitFn),
        ("3x29x32", $f::<$e, U3, U29, U32> as $crate::runner::UnitFn),
        ("3x30x0", $f::<$e, U3, U30, U0> as $crate::runner::UnitFn),
        ("3x31x1", $f::<$e, U3, U31, U1> as $crate::runner::UnitFn),
        ("3x32x2", $f::<$e, U3, U32, U2> as $crate::runner::UnitFn),
        ("4x0x4", $f::<$e, U4, U0, U4> as $crate::runner::UnitFn),
        ("4x1x5", $f::<$e, U4, U1, U5> as $crate::runner::UnitFn),
        ("4x2x6", $f::<$e, U4, U2, U6> as $crate::runner::UnitFn),
        ("4x3x7", $f::<$e, U4, U3, U7> as $crate::runner::UnitFn),
        ("4x4x8", $f::<$e, U4, U4, U8> as $crate::runner::UnitFn),
        ("4x5x9", $f::<$e, U4, U5, U9> as $crate::runner::UnitFn),
        ("4x6x10", $f::<$e, U4, U6, U10> as $crate::runner::UnitFn),
        ("4x7x11", $f::<$e, U4, U7, U11> as $crate::runner::UnitFn),
        ("4x8x12", $f::<$e, U4, U8, U12> as $crate::runner::UnitFn),
        ("4x9x13", $f::<$e, U4, U9, U13> as $crate::runner::UnitFn),
        ("4x10x14", $f::<$e, U4, U10, U14> as $crate::runner::UnitFn),
        ("4x11x15", $f::<$e, U4, U11, U15> as $crate::runner::UnitFn),
        ("4x12x16", $f::<$e, U4, U12, U16> as $crate::runner::UnitFn),
        ("4x13x17", $f::<$e, U4, U13, U17> as $crate::runner::UnitFn),
        ("4x14x18", $f::<$e, U4, U14, U18> as $crate::runner::UnitFn),
        ("4x15x19", $f::<$e, U4, U15, U19> as $crate::runner::UnitFn),
        ("4x16x20", $f::<$e, U4, U16, U20> as $crate::runner::UnitFn),
        ("4x17x21", $f::<$e, U4, U17, U21> as $crate::runner::UnitFn),
        ("4x18x22", $f::<$e, U4, U18, U22> as $crate::runner::UnitFn),
        ("4x19x23", $f::<$e, U4, U19, U23> as $crate::runner::UnitFn),
        ("4x20x24", $f::<$e, U4, U20, U24> as $crate::runner::UnitFn),
        ("4x21x25", $f::<$e, U4, U21, U25> as $crate::runner::UnitFn),
        ("4x22x26", $f::<$e, U4, U22, U26> as $crate::runner::UnitFn),
        ("4x23x27", $f::<$e, U4, U23, U27> as $crate::runner::UnitFn),
        ("4x24x28", $f::<$e, U4, U24, U28> as $crate::runner::UnitFn),
        ("4x25x29", $f::<$e, U4, U25, U29> as $crate::runner::UnitFn),
        ("4x26x30", $f::<$e, U4, U26, U30> as $crate::runner::UnitFn),
        ("4x27x31", $f::<$e, U4, U27, U31> as $crate::runner::UnitFn),
        ("4x28x32", $f::<$e, U4, U28, U32> as $crate::runner::UnitFn),
        ("4x29x0", $f::<$e, U4, U29, U0> as $crate::runner::UnitFn),
        ("4x30x1", $f::<$e, U4, U30, U1> as $crate::runner::UnitFn),
        ("4x31x2", $f::<$e, U4, U31, U2> as $crate::runner::UnitFn),
        ("4x32x3", $f::<$e, U4, U32, U3> as $crate::runner::UnitFn),
        ("5x0x5", $f::<$e, U5, U0, U5> as $crate::runner::UnitFn),
        ("5x1x6", $f::<$e, U5, U1, U6> as $crate::runner::UnitFn),
        ("5x2x7", $f::<$e, U5, U2, U7> as $crate::runner::UnitFn),
        ("5x3x8", $f::<$e, U5, U3, U8> as $crate::runner::UnitFn),
        ("5x4x9", $f::<$e, U5, U4, U9> as $crate::runner::UnitFn),
        ("5x5x10", $f::<$e, U5, U5, U10> as $crate::runner::UnitFn),
        ("5x6x11", $f::<$e, U5, U6, U11> as $crate::runner::UnitFn),
        ("5x7x12", $f::<$e, U5, U7, U12> as $crate::runner::UnitFn),
        ("5x8x13", $f::<$e, U5, U8, U13> as $crate::runner::UnitFn),
        ("5x9x14", $f::<$e, U5, U9, U14> as $crate::runner::UnitFn),
        ("5x10x15", $f::<$e, U5, U10, U15> as $crate::runner::UnitFn),
        ("5x11x16", $f::<$e, U5, U11, U16> as $crate::runner::UnitFn),
        ("5x12x17", $f::<$e, U5, U12, U17> as $crate::runner::UnitFn),
        ("5x13x18", $f::<$e, U5, U13, U18> as $crate::runner::UnitFn),
        ("5x14x19", $f::<$e, U5, U14, U19> as $crate::runner::UnitFn),
        ("5x15x20", $f::<$e, U5, U15, U20> as $crate::runner::UnitFn),
        ("5x16x21", $f::<$e, U5, U16, U21> as $crate::runner::UnitFn),
        ("5x17x22", $f::<$e, U5, U17, U22> as $crate::runner::UnitFn),
        ("5x18x23", $f::<$e, U5, U18, U23> as $crate::runner::UnitFn),
        ("5x19x24", $f::<$e, U5, U19, U24> as $crate::runner::UnitFn),
        ("5x20x25", $f::<$e, U5, U20, U25> as $crate::runner::UnitFn),
        ("5x21x26", $f::<$e, U5, U21, U26> as $crate::runner::UnitFn),
        ("5x22x27", $f::<$e, U5, U22, U27> as $crate::runner::UnitFn),
        ("5x23x28", $f::<$e, U5, U23, U28> as $crate::runner::UnitFn),
        ("5x24x29", $f::<$e, U5, U24, U29> as $crate::runner::UnitFn),
        ("5x25x30", $f::<$e, U5, U25, U30> as $crate::runner::UnitFn),
        ("5x26x31", $f::<$e, U5, U26, U31> as $crate::runner::UnitFn),
        ("5x27x32", $f::<$e, U5, U27, U32> as $crate::runner::UnitFn),
        ("5x28x0", $f::<$e, U5, U28, U0> as $crate::runner::UnitFn),
        ("5x29x1", $f::<$e, U5, U29, U1> as $crate::runner::UnitFn),
        ("5x30x2", $f::<$e, U5, U30, U2> as $crate::runner::UnitFn),
        ("5x31x3", $f::<$e, U5, U31, U3> as $crate::runner::UnitFn),
        ("5x32x4", $f::<$e, U5, U32, U4> as $crate::runner::UnitFn),
        ("6x0x6", $f::<$e, U6, U0, U6> as $crate::runner::UnitFn),
        ("6x1x7", $f::<$e, U6, U1, U7> as $crate::runner::UnitFn),
        ("6x2x8", $f::<$e, U6, U2, U8> as $crate::runner::UnitFn),
        ("6x3x9", $f::<$e, U6, U3, U9> as $crate::runner::UnitFn),
        ("6x4x10", $f::<$e, U6, U4, U10> as $crate::runner::UnitFn),
        ("6x5x11", $f::<$e, U6, U5, U11> as $crate::runner::UnitFn),
        ("6x6x12", $f::<$e, U6, U6, U12> as $crate::runner::UnitFn),
        ("6x7x13", $f::<$e, U6, U7, U13> as $crate::runner::UnitFn),
        ("6x8x14", $f::<$e, U6, U8, U14> as $crate::runner::UnitFn),
        ("6x9x15", $f::<$e, U6, U9, U15> as $crate::runner::UnitFn),
        ("6x10x16", $f::<$e, U6, U10, U16> as $crate::runner::UnitFn),
        ("6x11x17", $f::<$e, U6, U11, U17> as $crate::runner::UnitFn),
        ("6x12x18", $f::<$e, U6, U12, U18> as $crate::runner::UnitFn),
        ("6x13x19", $f::<$e, U6, U13, U19> as $crate::runner::UnitFn),
        ("6x14x20", $f::<$e, U6, U14, U20> as $crate::runner::UnitFn),
        ("6x15x21", $f::<$e, U6, U15, U21> as $crate::runner::UnitFn),
        ("6x16x22", $f::<$e, U6, U16, U22> as $crate::runner::UnitFn),
        ("6x17x23", $f::<$e, U6, U17, U23> as $crate::runner::UnitFn),
        ("6x18x24", $f::<$e, U6, U18, U24> as $crate::runner::UnitFn),
        ("6x19x25", $f::<$e, U6, U19, U25> as $crate::runner::UnitFn),
        ("6x20x26", $f::<$e, U6, U20, U26> as $crate::runner::UnitFn),
        ("6x21x27", $f::<$e, U6, U21, U27> as $crate::runner::UnitFn),
        ("6x22x28", $f::<$e, U6, U22, U28> as $crate::runner::UnitFn),
        ("6x23x29", $f::<$e, U6, U23, U29> as $crate::runner::UnitFn),
        ("6x24x30", $f::<$e, U6, U24, U30> as $crate::runner::UnitFn),
        ("6x25x31", $f::<$e, U6, U25, U31> as $crate::runner::UnitFn),
        ("6x26x32", $f::<$e, U6, U26, U32> as $crate::runner::UnitFn),
        ("6x27x0", $f::<$e, U6, U27, U0> as $crate::runner::UnitFn),
        ("6x28x1", $f::<$e, U6, U28, U1> as $crate::runner::UnitFn),
        ("6x29x2", $f::<$e, U6, U29, U2> as $crate::runner::UnitFn),
        ("6x30x3", $f::<$e, U6, U30, U3> as $crate::runner::UnitFn),
        ("6x31x4", $f::<$e, U6, U31, U4> as $crate::runner::UnitFn),
        ("6x32x5", $f::<$e, U6, U32, U5> as $crate::runner::UnitFn),
        ("7x0x7", $f::<$e, U7, U0, U7> as $crate::runner::UnitFn),
        ("7x1x8", $f::<$e, U7, U1, U8> as $crate::runner::UnitFn),
        ("7x2x9", $f::<$e, U7, U2, U9> as $crate::runner::UnitFn),
        ("7x3x10", $f::<$e, U7, U3, U10> as $crate::runner::UnitFn),
        ("7x4x11", $f::<$e, U7, U4, U11> as $crate::runner::UnitFn),
        ("7x5x12", $f::<$e, U7, U5, U12> as $crate::runner::UnitFn),
        ("7x6x13", $f::<$e, U7, U6, U13> as $crate::runner::UnitFn),
        ("7x7x14", $f::<$e, U7, U7, U14> as $crate::runner::UnitFn),
        ("7x8x15", $f::<$e, U7, U8, U15> as $crate::runner::UnitFn),
        ("7x9x16", $f::<$e, U7, U9, U16> as $crate::runner::UnitFn),
        ("7x10x17", $f::<$e, U7, U10, U17> as $crate::runner::UnitFn),
        ("7x11x18", $f::<$e, U7, U11, U18> as $crate::runner::UnitFn),
        ("7x12x19", $f::<$e, U7, U12, U19> as $crate::runner::UnitFn),
        ("7x13x20", $f::<$e, U7, U13, U20> as $crate::runner::UnitFn),
        ("7x14x21", $f::<$e, U7, U14, U21> as $crate::runner::UnitFn),
        ("7x15x22", $f::<$e, U7, U15, U22> as $crate::runner::UnitFn),
        ("7x16x23", $f::<$e, U7, U16, U23> as $crate::runner::UnitFn),
        ("7x17x24", $f::<$e, U7, U17, U24> as $crate::runner::UnitFn),
        ("7x18x25", $f::<$e, U7, U18, U25> as $crate::runner::UnitFn),
        ("7x19x26", $f::<$e, U7, U19, U26> as $crate::runner::UnitFn),
        ("7x20x27", $f::<$e, U7, U20, U27> as $crate::runner::UnitFn),
        ("7x21x28", $f::<$e, U7, U21, U28> as $crate::runner::UnitFn),
        ("7x22x29", $f::<$e, U7, U22, U29> as $crate::runner::UnitFn),
        ("7x23x30", $f::<$e, U7, U23, U30> as $crate::runner::UnitFn),
        ("7x24x31", $f::<$e, U7, U24, U31> as $crate::runner::UnitFn),
        ("7x25x32", $f::<$e, U7, U25, U32> as $crate::runner::UnitFn),
        ("7x26x0", $f::<$e, U7, U26, U0> as $crate::runner::UnitFn),
        ("7x27x1", $f::<$e, U7, U27, U1> as $crate::runner::UnitFn),
        ("7x28x2", $f::<$e, U7, U28, U2> as $crate::runner::UnitFn),
        ("7x29x3", $f::<$e, U7, U29, U3> as $crate::runner::UnitFn),
        ("7x30x4", $f::<$e, U7, U30, U4> as $crate::runner::UnitFn),
        ("7x31x5", $f::<$e, U7, U31, U5> as $crate::runner::UnitFn),
        ("7x32x6", $f::<$e, U7, U32, U6> as $crate::runner::UnitFn),
        ("8x0x8", $f::<$e, U8, U0, U8> as $crate::runner::UnitFn),
        ("8x1x9", $f::<$e, U8, U1, U9> as $crate::runner::UnitFn),
        ("8x2x10", $f::<$e, U8, U2, U10> as $crate::runner::UnitFn),
        ("8x3x11", $f::<$e, U8, U3, U11> as $crate::runner::UnitFn),
        ("8x4x12", $f::<$e, U8, U4, U12> as $crate::runner::UnitFn),
        ("8x5x13", $f::<$e, U8, U5, U13> as $crate::runner::UnitFn),
        ("8x6x14", $f::<$e, U8, U6, U14> as $crate::runner::UnitFn),
        ("8x7x15", $f::<$e, U8, U7, U15> as $crate::runner::UnitFn),
        ("8x8x16", $f::<$e, U8, U8, U16> as $crate::runner::UnitFn),
        ("8x9x17", $f::<$e, U8, U9, U17> as $crate::runner::UnitFn),
        ("8x10x18", $f::<$e, U8, U10, U18> as $crate::runner::UnitFn),
        ("8x11x19", $f::<$e, U8, U11, U19> as $crate::runner::UnitFn),
        ("8x12x20", $f::<$e, U8, U12, U20> as $crate::runner::UnitFn),
        ("8x13x21", $f::<$e, U8, U13, U21> as $crate::runner::UnitFn),
        ("8x14x22", $f::<$e, U8, U14, U22> as $crate::runner::UnitFn),
        ("8x15x23", $f::<$e, U8, U15, U23> as $crate::runner::UnitFn),
        ("8x16x24", $f::<$e, U8, U16, U24> as $crate::runner::UnitFn),
        ("8x17x25", $f::<$e, U8, U17, U25> as $crate::runner::UnitFn),
        ("8x18x26", $f::<$e, U8, U18, U26> as $crate::runner::UnitFn),
        ("8x19x27", $f::<$e, U8, U19, U27> as $crate::runner::UnitFn),
        ("8x20x28", $f::<$e, U8, U20, U28> as $crate::runner::UnitFn),
        ("8x21x29", $f::<$e, U8, U21, U29> as $crate::runner::UnitFn),
        ("8x22x30", $f::<$e, U8, U22, U30> as $crate::runner::UnitFn),
        ("8x23x31", $f::<$e, U8, U23, U31> as $crate::runner::UnitFn),
        ("8x24x32", $f::<$e, U8, U24, U32> as $crate::runner::UnitFn),
        ("8x25x0", $f::<$e, U8, U25, U0> as $crate::runner::UnitFn),
        ("8x26x1", $f::<$e, U8, U26, U1> as $crate::runner::UnitFn),
        ("8x27x2", $f::<$e, U8, U27, U2> as $crate::runner::UnitFn),
        ("8x28x3", $f::<$e, U8, U28, U3> as $crate::runner::UnitFn),
        ("8x29x4", $f::<$e, U8, U29, U4> as $crate::runner::UnitFn),
        ("8x30x5", $f::<$e, U8, U30, U5> as $crate::runner::UnitFn),
        ("8x31x6", $f::<$e, U8, U31, U6> as $crate::runner::UnitFn),
        ("8x32x7", $f::<$e, U8, U32, U7> as $crate::runner::UnitFn),
        ("9x0x9", $f::<$e, U9, U0, U9> as $crate::runner::UnitFn),
        ("9x1x10", $f::<$e, U9, U1, U10> as $crate::runner::UnitFn),
        ("9x2x11", $f::<$e, U9, U2, U11> as $crate::runner::UnitFn),
        ("9x3x12", $f::<$e, U9, U3, U12> as $crate::runner::UnitFn),
        ("9x4x13", $f::<$e, U9, U4, U13> as $crate::runner::UnitFn),
        ("9x5x14", $f::<$e, U9, U5, U14> as $crate::runner::UnitFn),
        ("9x6x15", $f::<$e, U9, U6, U15> as $crate::runner::UnitFn),
        ("9x7x16", $f::<$e, U9, U7, U16> as $crate::runner::UnitFn),
        ("9x8x17", $f::<$e, U9, U8, U17> as $crate::runner::UnitFn),
        ("9x9x18", $f::<$e, U9, U9, U18> as $crate::runner::UnitFn),
        ("9x10x19", $f::<$e, U9, U10, U19> as $crate::runner::UnitFn),
        ("9x11x20", $f::<$e, U9, U11, U20> as $crate::runner::UnitFn),
        ("9x12x21", $f::<$e, U9, U12, U21> as $crate::runner::UnitFn),
        ("9x13x22", $f::<$e, U9, U13, U22> as $crate::runner::UnitFn),
        ("9x14x23", $f::<$e, U9, U14, U23> as $crate::runner::UnitFn),
        ("9x15x24", $f::<$e, U9, U15, U24> as $crate::runner::UnitFn),
        ("9x16x25", $f::<$e, U9, U16, U25> as $crate::runner::UnitFn),
        ("9x17x26", $f::<$e, U9, U17, U26> as $crate::runner::UnitFn),
        ("9x18x27", $f::<$e, U9, U18, U27> as $crate::runner::UnitFn),
        ("9x19x28", $f::<$e, U9, U19, U28> as $crate::runner::UnitFn),
        ("9x20x29", $f::<$e, U9, U20, U29> as $crate::runner::UnitFn),
        ("9x21x30", $f::<$e, U9, U21, U30> as $crate::runner::UnitFn),
        ("9x22x31", $f::<$e, U9, U22, U31> as $crate::runner::UnitFn),
        ("9x23x32", $f::<$e, U9, U23, U32> as $crate::runner::UnitFn),
        ("9x24x0", $f::<$e, U9, U24, U0> as $crate::runner::UnitFn),
        ("9x25x1", $f::<$e, U9, U25, U1> as $crate::runner::UnitFn),
        ("9x26x2", $f::<$e, U9, U26, U2> as $crate::runner::UnitFn),
        ("9x27x3", $f::<$e, U9, U27, U3> as $crate::runner::UnitFn),
        ("9x28x4", $f::<$e, U9, U28, U4> as $crate::runner::UnitFn),
        ("9x29x5", $f::<$e, U9, U29, U5> as $crate::runner::UnitFn),
        ("9x30x6", $f::<$e, U9, U30, U6> as $crate::runner::UnitFn),
        ("9x31x7", $f::<$e, U9, U31, U7> as $crate::runner::UnitFn),
        ("9x32x8", $f::<$e, U9, U32, U8> as $crate::runner::UnitFn),
        ("10x0x10", $f::<$e, U10, U0, U10> as $crate::runner::UnitFn),
        ("10x1x11", $f::<$e, U10, U1, U11> as $crate::runner::UnitFn),
        ("10x2x12", $f::<$e, U10, U2, U12> as $crate::runner::UnitFn),
        ("10x3x13", $f::<$e, U10, U3, U13> as $crate::runner::UnitFn),
        ("10x4x14", $f::<$e, U10, U4, U14> as $crate::runner::UnitFn),
        ("10x5x15", $f::<$e, U10, U5, U15> as $crate::runner::UnitFn),
        ("10x6x16", $f::<$e, U10, U6, U16> as $crate::runner::UnitFn),
        ("10x7x17", $f::<$e, U10, U7, U17> as $crate::runner::UnitFn),
        ("10x8x18", $f::<$e, U10, U8, U18> as $crate::runner::UnitFn),
        ("10x9x19", $f::<$e, U10, U9, U19> as $crate::runner::UnitFn),
        ("10x10x20", $f::<$e, U10, U10, U20> as $crate::runner::UnitFn),
        ("10x11x21", $f::<$e, U10, U11, U21> as $crate::runner::UnitFn),
        ("10x12x22", $f::<$e, U10, U12, U22> as $crate::runner::UnitFn),
        ("10x13x23", $f::<$e, U10, U13, U23> as $crate::runner::UnitFn),
        ("10x14x24", $f::<$e, U10, U14, U24> as $crate::runner::UnitFn),
        ("10x15x25", $f::<$e, U10, U15, U25> as $crate::runner::UnitFn),
        ("10x16x26", $f::<$e, U10, U16, U26> as $crate::runner::UnitFn),
        ("10x17x27", $f::<$e, U10, U17, U27> as $crate::runner::UnitFn),
        ("10x18x28", $f::<$e, U10, U18, U28> as $crate::runner::UnitFn),
        ("10x19x29", $f::<$e, U10, U19, U29> as $crate::runner::UnitFn),
        ("10x20x30", $f::<$e, U10, U20, U30> as $crate::runner::UnitFn),
        ("10x21x31", $f::<$e, U10, U21, U31> as $crate::runner::UnitFn),
        ("10x22x32", $f::<$e, U10, U22, U32> as $crate::runner::UnitFn),
        ("10x23x0", $f::<$e, U10, U23, U0> as $crate::runner::UnitFn),
        ("10x24x1", $f::<$e, U10, U24, U1> as $crate::runner::UnitFn),
        ("10x25x2", $f::<$e, U10, U25, U2> as $crate::runner::UnitFn),
        ("10x26x3", $f::<$e, U10, U26, U3> as $crate::runner::UnitFn),
        ("10x27x4", $f::<$e, U10, U27, U4> as $crate::runner::UnitFn),
        ("10x28x5", $f::<$e, U10, U28, U5> as $crate::runner::UnitFn),
        ("10x29x6", $f::<$e, U10, U29, U6> as $crate::runner::UnitFn),
        ("10x30x7", $f::<$e, U10, U30, U7> as $crate::runner::UnitFn),
        ("10x31x8", $f::<$e, U10, U31, U8> as $crate::runner::UnitFn),
        ("10x32x9", $f::<$e, U10, U32, U9> as $crate::runner::UnitFn),
        ("11x0x11", $f::<$e, U11, U0, U11> as $crate::runner::UnitFn),
        ("11x1x12", $f::<$e, U11, U1, U12> as $crate::runner::UnitFn),
        ("11x2x13", $f::<$e, U11, U2, U13> as $crate::runner::UnitFn),
        ("11x3x14", $f::<$e, U11, U3, U14> as $crate::runner::UnitFn),
        ("11x4x15", $f::<$e, U11, U4, U15> as $crate::runner::UnitFn),
        ("11x5x16", $f::<$e, U11, U5, U16> as $crate::runner::UnitFn),
        ("11x6x17", $f::<$e, U11, U6, U17> as $crate::runner::UnitFn),
        ("11x7x18", $f::<$e, U11, U7, U18> as $crate::runner::UnitFn),
        ("11x8x19", $f::<$e, U11, U8, U19> as $crate::runner::UnitFn),
        ("11x9x20", $f::<$e, U11, U9, U20> as $crate::runner::UnitFn),
        ("11x10x21", $f::<$e, U11, U10, U21> as $crate::runner::UnitFn),
        ("11x11x22", $f::<$e, U11, U11, U22> as $crate::runner::UnitFn),
        ("11x12x23", $f::<$e, U11, U12, U23> as $crate::runner::UnitFn),
        ("11x13x24", $f::<$e, U11, U13, U24> as $crate::runner::UnitFn),
        ("11x14x25", $f::<$e, U11, U14, U25> as $crate::runner::UnitFn),
        ("11x15x26", $f::<$e, U11, U15, U26> as $crate::runner::UnitFn),
        ("11x16x27", $f::<$e, U11, U16, U27> as $crate::runner::UnitFn),
        ("11x17x28", $f::<$e, U11, U17, U28> as $crate::runner::UnitFn),
        ("11x18x29", $f::<$e, U11, U18, U29> as $crate::runner::UnitFn),
        ("11x19x30", $f::<$e, U11, U19, U30> as $crate::runner::UnitFn),
        ("11x20x31", $f::<$e, U11, U20, U31> as $crate::runner::UnitFn),
        ("11x21x32", $f::<$e, U11, U21, U32> as $crate::runner::UnitFn),
        ("11x22x0", $f::<$e, U11, U22, U0> as $crate::runner::UnitFn),
        ("11x23x1", $f::<$e, U11, U23, U1> as $crate::runner::UnitFn),
        ("11x24x2", $f::<$e, U11, U24, U2> as $crate::runner::UnitFn),
        ("11x25x3", $f::<$e, U11, U25, U3> as $crate::runner::UnitFn),
        ("11x26x4", $f::<$e, U11, U26, U4> as $crate::runner::UnitFn),
        ("11x27x5", $f::<$e, U11, U27, U5> as $crate::runner::UnitFn),
        ("11x28x6", $f::<$e, U11, U28, U6> as $crate::runner::UnitFn),
        ("11x29x7", $f::<$e, U11, U29, U7> as $crate::runner::UnitFn),
        ("11x30x8", $f::<$e, U11, U30, U8> as $crate::runner::UnitFn),
        ("11x31x9", $f::<$e, U11, U31, U9> as $crate::runner::UnitFn),
        ("11x32x10", $f::<$e, U11, U32, U10> as $crate::runner::UnitFn),
        ("12x0x12", $f::<$e, U12, U0, U12> as $crate::runner::UnitFn),
        ("12x1x13", $f::<$e, U12, U1, U13> as $crate::runner::UnitFn),
        ("12x2x14", $f::<$e, U12, U2, U14> as $crate::runner::UnitFn),
        ("12x3x15", $f::<$e, U12, U3, U15> as $crate::runner::UnitFn),
        ("12x4x16", $f::<$e, U12, U4, U16> as $crate::runner::UnitFn),
        ("12x5x17", $f::<$e, U12, U5, U17> as $crate::runner::UnitFn),
        ("12x6x18", $f::<$e, U12, U6, U18> as $crate::runner::UnitFn),
        ("12x7x19", $f::<$e, U12, U7, U19> as $crate::runner::UnitFn),
        ("12x8x20", $f::<$e, U12, U8, U20> as $crate::runner::UnitFn),
        ("12x9x21", $f::<$e, U12, U9, U21> as $crate::runner::UnitFn),
        ("12x10x22", $f::<$e, U12, U10, U22> as $crate::runner::UnitFn),
        ("12x11x23", $f::<$e, U12, U11, U23> as $crate::runner::UnitFn),
        ("12x12x24", $f::<$e, U12, U12, U24> as $crate::runner::UnitFn),
        ("12x13x25", $f::<$e, U12, U13, U25> as $crate::runner::UnitFn),
        ("12x14x26", $f::<$e, U12, U14, U26> as $crate::runner::UnitFn),
        ("12x15x27", $f::<$e, U12, U15, U27> as $crate::runner::UnitFn),
        ("12x16x28", $f::<$e, U12, U16, U28> as $crate::runner::UnitFn),
        ("12x17x29", $f::<$e, U12, U17, U29> as $crate::runner::UnitFn),
        ("12x18x30", $f::<$e, U12, U18, U30> as $crate::runner::UnitFn),
        ("12x19x31", $f::<$e, U12, U19, U31> as $crate::runner::UnitFn),
        ("12x20x32", $f::<$e, U12, U20, U32> as $crate::runner::UnitFn),
        ("12x21x0", $f::<$e, U12, U21, U0> as $crate::runner::UnitFn),
        ("12x22x1", $f::<$e, U12, U22, U1> as $crate::runner::UnitFn),
        ("12x23x2", $f::<$e, U12, U23, U2> as $crate::runner::UnitFn),
        ("12x24x3", $f::<$e, U12, U24, U3> as $crate::runner::UnitFn),
        ("12x25x4", $f::<$e, U12, U25, U4> as $crate::runner::UnitFn),
        ("12x26x5", $f::<$e, U12, U26, U5> as $crate::runner::UnitFn),
        ("12x27x6", $f::<$e, U12, U27, U6> as $crate::runner::UnitFn),
        ("12x28x7", $f::<$e, U12, U28, U7> as $crate::runner::UnitFn),
        ("12x29x8", $f::<$e, U12, U29, U8> as $crate::runner::UnitFn),
        ("12x30x9", $f::<$e, U12, U30, U9> as $crate::runner::UnitFn),
        ("12x31x10", $f::<$e, U12, U31, U10> as $crate::runner::UnitFn),
        ("12x32x11", $f::<$e, U12, U32, U11> as $crate::runner::UnitFn),
        ("13x0x13", $f::<$e, U13, U0, U13> as $crate::runner::UnitFn),
        ("13x1x14", $f::<$e, U13, U1, U14> as $crate::runner::UnitFn),
        ("13x2x15", $f::<$e, U13, U2, U15> as $crate::runner::UnitFn),
        ("13x3x16", $f::<$e, U13, U3, U16> as $crate::runner::UnitFn),
        ("13x4x17", $f::<$e, U13, U4, U17> as $crate::runner::UnitFn),
        ("13x5x18", $f::<$e, U13, U5, U18> as $crate::runner::UnitFn),
        ("13x6x19", $f::<$e, U13, U6, U19> as $crate::runner::UnitFn),
        ("13x7x20", $f::<$e, U13, U7, U20> as $crate::runner::UnitFn),
        ("13x8x21", $f::<$e, U13, U8, U21> as $crate::runner::UnitFn),
        ("13x9x22", $f::<$e, U13, U9, U22> as $crate::runner::UnitFn),
        ("13x10x23", $f::<$e, U13, U10, U23> as $crate::runner::UnitFn),
        ("13x11x24", $f::<$e, U13, U11, U24> as $crate::runner::UnitFn),
        ("13x12x25", $f::<$e, U13, U12, U25> as $crate::runner::UnitFn),
        ("13x13x26", $f::<$e, U13, U13, U26> as $crate::runner::UnitFn),
        ("13x14x27", $f::<$e, U13, U14, U27> as $crate::runner::UnitFn),
        ("13x15x28", $f::<$e, U13, U15, U28> as $crate::runner::UnitFn),
        ("13x16x29", $f::<$e, U13, U16, U29> as $crate::runner::UnitFn),
        ("13x17x30", $f::<$e, U13, U17, U30> as $crate::runner::UnitFn),
        ("13x18x31", $f::<$e, U13, U18, U31> as $crate::runner::UnitFn),
        ("13x19x32", $f::<$e, U13, U19, U32> as $crate::runner::UnitFn),
        ("13x20x0", $f::<$e, U13, U20, U0> as $crate::runner::UnitFn),
        ("13x21x1", $f::<$e, U13, U21, U1> as $crate::runner::UnitFn),
        ("13x22x2", $f::<$e, U13, U22, U2> as $crate::runner::UnitFn),
        ("13x23x3", $f::<$e, U13, U23, U3> as $crate::runner::UnitFn),
        ("13x24x4", $f::<$e, U13, U24, U4> as $crate::runner::UnitFn),
        ("13x25x5", $f::<$e, U13, U25, U5> as $crate::runner::UnitFn),
        ("13x26x6", $f::<$e, U13, U26, U6> as $crate::runner::UnitFn),
        ("13x27x7", $f::<$e, U13, U27, U7> as $crate::runner::UnitFn),
        ("13x28x8", $f::<$e, U13, U28, U8> as $crate::runner::UnitFn),
        ("13x29x9", $f::<$e, U13, U29, U9> as $crate::runner::UnitFn),
        ("13x30x10", $f::<$e, U13, U30, U10> as $crate::runner::UnitFn),
        ("13x31x11", $f::<$e, U13, U31, U11> as $crate::runner::UnitFn),
        ("13x32x12", $f::<$e, U13, U32, U12> as $crate::runner::UnitFn),
        ("14x0x14", $f::<$e, U14, U0, U14> as $crate::runner::UnitFn),
        ("14x1x15", $f::<$e, U14, U1, U15> as $crate::runner::UnitFn),
        ("14x2x16", $f::<$e, U14, U2, U16> as $crate::runner::UnitFn),
        ("14x3x17", $f::<$e, U14, U3, U17> as $crate::runner::UnitFn),
        ("14x4x18", $f::<$e, U14, U4, U18> as $crate::runner::UnitFn),
        ("14x5x19", $f::<$e, U14, U5, U19> as $crate::runner::UnitFn),
        ("14x6x20", $f::<$e, U14, U6, U20> as $crate::runner::UnitFn),
        ("14x7x21", $f::<$e, U14, U7, U21> as $crate::runner::UnitFn),
        ("14x8x22", $f::<$e, U14, U8, U22> as $crate::runner::UnitFn),
        ("14x9x23", $f::<$e, U14, U9, U23> as $crate::runner::UnitFn),
        ("14x10x24", $f::<$e, U14, U10, U24> as $crate::runner::UnitFn),
        ("14x11x25", $f::<$e, U14, U11, U25> as $crate::runner::UnitFn),
        ("14x12x26", $f::<$e, U14, U12, U26> as $crate::runner::UnitFn),
        ("14x13x27", $f::<$e, U14, U13, U27> as $crate::runner::UnitFn),
        ("14x14x28", $f::<$e, U14, U14, U28> as $crate::runner::UnitFn),
        ("14x15x29", $f::<$e, U14, U15, U29> as $crate::runner::UnitFn),
        ("14x16x30", $f::<$e, U14, U16, U30> as $crate::runner::UnitFn),
        ("14x17x31", $f::<$e, U14, U17, U31> as $crate::runner::UnitFn),
        ("14x18x32", $f::<$e, U14, U18, U32> as $crate::runner::UnitFn),
        ("14x19x0", $f::<$e, U14, U19, U0> as $crate::runner::UnitFn),
        ("14x20x1", $f::<$e, U14, U20, U1> as $crate::runner::UnitFn),
        ("14x21x2", $f::<$e, U14, U21, U2> as $crate::runner::UnitFn),
        ("14x22x3", $f::<$e, U14, U22, U3> as $crate::runner::UnitFn),
        ("14x23x4", $f::<$e, U14, U23, U4> as $crate::runner::UnitFn),
        ("14x24x5", $f::<$e, U14, U24, U5> as $crate::runner::UnitFn),
        ("14x25x6", $f::<$e, U14, U25, U6> as $crate::runner::UnitFn),
        ("14x26x7", $f::<$e, U14, U26, U7> as $crate::runner::UnitFn),
        ("14x27x8", $f::<$e, U14, U27, U8> as $crate::runner::UnitFn),
        ("14x28x9", $f::<$e, U14, U28, U9> as $crate::runner::UnitFn),
        ("14x29x10", $f::<$e, U14, U29, U10> as $crate::runner::UnitFn),
        ("14x30x11", $f::<$e, U14, U30, U11> as $crate::runner::UnitFn),
        ("14x31x12", $f::<$e, U14, U31, U12> as $crate::runner::UnitFn),
        ("14x32x13", $f::<$e, U14, U32, U13> as $crate::runner::UnitFn),
        ("15x0x15", $f::<$e, U15, U0, U15> as $crate::runner::UnitFn),
        ("15x1x16", $f::<$e, U15, U1, U16> as $crate::runner::UnitFn),
        ("15x2x17", $f::<$e, U15, U2, U17> as $crate::runner::UnitFn),
        ("15x3x18", $f::<$e, U15, U3, U18> as $crate::runner::UnitFn),
        ("15x4x19", $f::<$e, U15, U4, U19> as $crate::runner::UnitFn),
        ("15x5x20", $f::<$e, U15, U5, U20> as $crate::runner::UnitFn),
        ("15x6x21", $f::<$e, U15, U6, U21> as $crate::runner::UnitFn),
        ("15x7x22", $f::<$e, U15, U7, U22> as $crate::runner::UnitFn),
        ("15x8x23", $f::<$e, U15, U8, U23> as $crate::runner::UnitFn),
        ("15x9x24", $f::<$e, U15, U9, U24> as $crate::runner::UnitFn),
        ("15x10x25", $f::<$e, U15, U10, U25> as $crate::runner::UnitFn),
        ("15x11x26", $f::<$e, U15, U11, U26> as $crate::runner::UnitFn),
        ("15x12x27", $f::<$e, U15, U12, U27> as $crate::runner::UnitFn),
        ("15x13x28", $f::<$e, U15, U13, U28> as $crate::runner::UnitFn),
        ("15x14x29", $f::<$e, U15, U14, U29> as $crate::runner::UnitFn),
        ("15x15x30", $f::<$e, U15, U15, U30> as $crate::runner::UnitFn),
        ("15x16x31", $f::<$e, U15, U16, U31> as $crate::runner::UnitFn),
        ("15x17x32", $f::<$e, U15, U17, U32> as $crate::runner::UnitFn),
        ("15x18x0", $f::<$e, U15, U18, U0> as $crate::runner::UnitFn),
        ("15x19x1", $f::<$e, U15, U19, U1> as $crate::runner::UnitFn),
        ("15x20x2", $f::<$e, U15, U20, U2> as $crate::runner::UnitFn),
        ("15x21x3", $f::<$e, U15, U21, U3> as $crate::runner::UnitFn),
        ("15x22x4", $f::<$e, U15, U22, U4> as $crate::runner::UnitFn),
        ("15x23x5", $f::<$e, U15, U23, U5> as $crate::runner::UnitFn),
        ("15x24x6", $f::<$e, U15, U24, U6> as $crate::runner::UnitFn),
        ("15x25x7", $f::<$e, U15, U25, U7> as $crate::runner::UnitFn),
        ("15x26x8", $f::<$e, U15, U26, U8> as $crate::runner::UnitFn),
        ("15x27x9", $f::<$e, U15, U27, U9> as $crate::runner::UnitFn),
        ("15x28x10", $f::<$e, U15, U28, U10> as $crate::runner::UnitFn),
        ("15x29x11", $f::<$e, U15, U29, U11> as $crate::runner::UnitFn),
        ("15x30x12", $f::<$e, U15, U30, U12> as $crate::runner::UnitFn),
        ("15x31x13", $f::<$e, U15, U31, U13> as $crate::runner::UnitFn),
        ("15x32x14", $f::<$e, U15, U32, U14> as $crate::runner::UnitFn),
        ("16x0x16", $f::<$e, U16, U0, U16> as $crate::runner::UnitFn),
        ("16x1x17", $f::<$e, U16, U1, U17> as $crate::runner::UnitFn),
        ("16x2x18", $f::<$e, U16, U2, U18> as $crate::runner::UnitFn),
        ("16x3x19", $f::<$e, U16, U3, U19> as $crate::runner::UnitFn),
        ("16x4x20", $f::<$e, U16, U4, U20> as $crate::runner::UnitFn),
        ("16x5x21", $f::<$e, U16, U5, U21> as $crate::runner::UnitFn),
        ("16x6x22", $f::<$e, U16, U6, U22> as $crate::runner::UnitFn),
        ("16x7x23", $f::<$e, U16, U7, U23> as $crate::runner::UnitFn),
        ("16x8x24", $f::<$e, U16, U8, U24> as $crate::runner::UnitFn),
        ("16x9x25", $f::<$e, U16, U9, U25> as $crate::runner::UnitFn),
        ("16x10x26", $f::<$e, U16, U10, U26> as $crate::runner::UnitFn),
        ("16x11x27", $f::<$e, U16, U11, U27> as $crate::runner::UnitFn),
        ("16x12x28", $f::<$e, U16, U12, U28> as $crate::runner::UnitFn),
        ("16x13x29", $f::<$e, U16, U13, U29> as $crate::runner::UnitFn),
        ("16x14x30", $f::<$e, U16, U14, U30> as $crate::runner::UnitFn),
        ("16x15x31", $f::<$e, U16, U15, U31> as $crate::runner::UnitFn),
        ("16x16x32", $f::<$e, U16, U16, U32> as $crate::runner::UnitFn),
        ("16x17x0", $f::<$e, U16, U17, U0> as $crate::runner::UnitFn),
        ("16x18x1", $f::<$e, U16, U18, U1> as $crate::runner::UnitFn),
        ("16x19x2", $f::<$e, U16, U19, U2> as $crate::runner::UnitFn),
        ("16x20x3", $f::<$e, U16, U20, U3> as $crate::runner::UnitFn),
        ("16x21x4", $f::<$e, U16, U21, U4> as $crate::runner::UnitFn),
        ("16x22x5", $f::<$e, U16, U22, U5> as $crate::runner::UnitFn),
        ("16x23x6", $f::<$e, U16, U23, U6> as $crate::runner::UnitFn),
        ("16x24x7", $f::<$e, U16, U24, U7> as $crate::runner::UnitFn),
        ("16x25x8", $f::<$e, U16, U25, U8> as $crate::runner::UnitFn),
        ("16x26x9", $f::<$e, U16, U26, U9> as $crate::runner::UnitFn),
        ("16x27x10", $f::<$e, U16, U27, U10> as $crate::runner::UnitFn),
        ("16x28x11", $f::<$e, U16, U28, U11> as $crate::runner::UnitFn),
        ("16x29x12", $f::<$e, U16, U29, U12> as $crate::runner::UnitFn),
        ("16x30x13", $f::<$e, U16, U30, U13> as $crate::runner::UnitFn),
        ("16x31x14", $f::<$e, U16, U31, U14> as $crate::runner::UnitFn),
        ("16x32x15", $f::<$e, U16, U32, U15> as $crate::runner::UnitFn),
        ("17x0x17", $f::<$e, U17, U0, U17> as $crate::runner::UnitFn),
        ("17x1x18", $f::<$e, U17, U1, U18> as $crate::runner::UnitFn),
        ("17x2x19", $f::<$e, U17, U2, U19> as $crate::runner::UnitFn),
        ("17x3x20", $f::<$e, U17, U3, U20> as $crate::runner::UnitFn),
        ("17x4x21", $f::<$e, U17, U4, U21> as $crate::runner::UnitFn),
        ("17x5x22", $f::<$e, U17, U5, U22> as $crate::runner::UnitFn),
        ("17x6x23", $f::<$e, U17, U6, U23> as $crate::runner::UnitFn),
        ("17x7x24", $f::<$e, U17, U7, U24> as $crate::runner::UnitFn),
        ("17x8x25", $f::<$e, U17, U8, U25> as $crate::runner::UnitFn),
        ("17x9x26", $f::<$e, U17, U9, U26> as $crate::runner::UnitFn),
        ("17x10x27", $f::<$e, U17, U10, U27> as $crate::runner::UnitFn),
        ("17x11x28", $f::<$e, U17, U11, U28> as $crate::runner::UnitFn),
        ("17x12x29", $f::<$e, U17, U12, U29> as $crate::runner::UnitFn),
        ("17x13x30", $f::<$e, U17, U13, U30> as $crate::runner::UnitFn),
        ("17x14x31", $f::<$e, U17, U14, U31> as $crate::runner::UnitFn),
        ("17x15x32", $f::<$e, U17, U15, U32> as $crate::runner::UnitFn),
        ("17x16x0", $f::<$e, U17, U16, U0> as $crate::runner::UnitFn),
        ("17x17x1", $f::<$e, U17, U17, U1> as $crate::runner::UnitFn),
        ("17x18x2", $f::<$e, U17, U18, U2> as $crate::runner::UnitFn),
        ("17x19x3", $f::<$e, U17, U19, U3> as $crate::runner::UnitFn),
        ("17x20x4", $f::<$e, U17, U20, U4> as $crate::runner::UnitFn),
        ("17x21x5", $f::<$e, U17, U21, U5> as $crate::runner::UnitFn),
        ("17x22x6", $f::<$e, U17, U22, U6> as $crate::runner::UnitFn),
        ("17x23x7", $f::<$e, U17, U23, U7> as $crate::runner::UnitFn),
        ("17x24x8", $f::<$e, U17, U24, U8> as $crate::runner::UnitFn),
        ("17x25x9", $f::<$e, U17, U25, U9> as $crate::runner::UnitFn),
        ("17x26x10", $f::<$e, U17, U26, U10> as $crate::runner::UnitFn),
        ("17x27x11", $f::<$e, U17, U27, U11> as $crate::runner::UnitFn),
        ("17x28x12", $f::<$e, U17, U28, U12> as $crate::runner::UnitFn),
        ("17x29x13", $f::<$e, U17, U29, U13> as $crate::runner::UnitFn),
        ("17x30x14", $f::<$e, U17, U30, U14> as $crate::runner::UnitFn),
        ("17x31x15", $f::<$e, U17, U31, U15> as $crate::runner::UnitFn),
        ("17x32x16", $f::<$e, U17, U32, U16> as $crate::runner::UnitFn),
        ("18x0x18", $f::<$e, U18, U0, U18> as $crate::runner::UnitFn),
        ("18x1x19", $f::<$e, U18, U1, U19> as $crate::runner::UnitFn),
        ("18x2x20", $f::<$e, U18, U2, U20> as $crate::runner::UnitFn),
        ("18x3x21", $f::<$e, U18, U3, U21> as $crate::runner::UnitFn),
        ("18x4x22", $f::<$e, U18, U4, U22> as $crate::runner::UnitFn),
        ("18x5x23", $f::<$e, U18, U5, U23> as $crate::runner::UnitFn),
        ("18x6x24", $f::<$e, U18, U6, U24> as $crate::runner::UnitFn),
        ("18x7x25", $f::<$e, U18, U7, U25> as $crate::runner::UnitFn),
        ("18x8x26", $f::<$e, U18, U8, U26> as $crate::runner::UnitFn),
        ("18x9x27", $f::<$e, U18, U9, U27> as $crate::runner::UnitFn),
        ("18x10x28", $f::<$e, U18, U10, U28> as $crate::runner::UnitFn),
        ("18x11x29", $f::<$e, U18, U11, U29> as $crate::runner::UnitFn),
        ("18x12x30", $f::<$e, U18, U12, U30> as $crate::runner::UnitFn),
        ("18x13x31", $f::<$e, U18, U13, U31> as $crate::runner::UnitFn),
        ("18x14x32", $f::<$e, U18, U14, U32> as $crate::runner::UnitFn),
        ("18x15x0", $f::<$e, U18, U15, U0> as $crate::runner::UnitFn),
        ("18x16x1", $f::<$e, U18, U16, U1> as $crate::runner::UnitFn),
        ("18x17x2", $f::<$e, U18, U17, U2> as $crate::runner::UnitFn),
        ("18x18x3", $f::<$e, U18, U18, U3> as $crate::runner::UnitFn),
        ("18x19x4", $f::<$e, U18, U19, U4> as $crate::runner::UnitFn),
        ("18x20x5", $f::<$e, U18, U20, U5> as $crate::runner::UnitFn),
        ("18x21x6", $f::<$e, U18, U21, U6> as $crate::runner::UnitFn),
        ("18x22x7", $f::<$e, U18, U22, U7> as $crate::runner::UnitFn),
        ("18x23x8", $f::<$e, U18, U23, U8> as $crate::runner::UnitFn),
        ("18x24x9", $f::<$e, U18, U24, U9> as $crate::runner::UnitFn),
        ("18x25x10", $f::<$e, U18, U25, U10> as $crate::runner::UnitFn),
        ("18x26x11", $f::<$e, U18, U26, U11> as $crate::runner::UnitFn),
        ("18x27x12", $f::<$e, U18, U27, U12> as $crate::runner::UnitFn),
        ("18x28x13", $f::<$e, U18, U28, U13> as $crate::runner::UnitFn),
        ("18x29x14", $f::<$e, U18, U29, U14> as $crate::runner::UnitFn),
        ("18x30x15", $f::<$e, U18, U30, U15> as $crate::runner::UnitFn),
        ("18x31x16", $f::<$e, U18, U31, U16> as $crate::runner::UnitFn),
        ("18x32x17", $f::<$e, U18, U32, U17> as $crate::runner::UnitFn),
        ("19x0x19", $f::<$e, U19, U0, U19> as $crate::runner::UnitFn),
        ("19x1x20", $f::<$e, U19, U1, U20> as $crate::runner::UnitFn),
        ("19x2x21", $f::<$e, U19, U2, U21> as $crate::runner::UnitFn),
        ("19x3x22", $f::<$e, U19, U3, U22> as $crate::runner::UnitFn),
        ("19x4x23", $f::<$e, U19, U4, U23> as $crate::runner::UnitFn),
        ("19x5x24", $f::<$e, U19, U5, U24> as $crate::runner::UnitFn),
        ("19x6x25", $f::<$e, U19, U6, U25> as $crate::runner::UnitFn),
        ("19x7x26", $f::<$e, U19, U7, U26> as $crate::runner::UnitFn),
        ("19x8x27", $f::<$e, U19, U8, U27> as $crate::runner::UnitFn),
        ("19x9x28", $f::<$e, U19, U9, U28> as $crate::runner::UnitFn),
        ("19x10x29", $f::<$e, U19, U10, U29> as $crate::runner::UnitFn),
        ("19x11x30", $f::<$e, U19, U11, U30> as $crate::runner::UnitFn),
        ("19x12x31", $f::<$e, U19, U12, U31> as $crate::runner::UnitFn),
        ("19x13x32", $f::<$e, U19, U13, U32> as $crate::runner::UnitFn),
        ("19x14x0", $f::<$e, U19, U14, U0> as $crate::runner::UnitFn),
        ("19x15x1", $f::<$e, U19, U15, U1> as $crate::runner::UnitFn),
        ("19x16x2", $f::<$e, U19, U16, U2> as $crate::runner::UnitFn),
        ("19x17x3", $f::<$e, U19, U17, U3> as $crate::runner::UnitFn),
        ("19x18x4", $f::<$e, U19, U18, U4> as $crate::runner::UnitFn),
        ("19x19x5", $f::<$e, U19, U19, U5> as $crate::runner::UnitFn),
        ("19x20x6", $f::<$e, U19, U20, U6> as $crate::runner::UnitFn),
        ("19x21x7", $f::<$e, U19, U21, U7> as $crate::runner::UnitFn),
        ("19x22x8", $f::<$e, U19, U22, U8> as $crate::runner::UnitFn),
        ("19x23x9", $f::<$e, U19, U23, U9> as $crate::runner::UnitFn),
        ("19x24x10", $f::<$e, U19, U24, U10> as $crate::runner::UnitFn),
        ("19x25x11", $f::<$e, U19, U25, U11> as $crate::runner::UnitFn),
        ("19x26x12", $f::<$e, U19, U26, U12> as $crate::runner::UnitFn),
        ("19x27x13", $f::<$e, U19, U27, U13> as $crate::runner::UnitFn),
        ("19x28x14", $f::<$e, U19, U28, U14> as $crate::runner::UnitFn),
        ("19x29x15", $f::<$e, U19, U29, U15> as $crate::runner::UnitFn),
        ("19x30x16", $f::<$e, U19, U30, U16> as $crate::runner::UnitFn),
        ("19x31x17", $f::<$e, U19, U31, U17> as $crate::runner::UnitFn),
        ("19x32x18", $f::<$e, U19, U32, U18> as $crate::runner::UnitFn),
        ("20x0x20", $f::<$e, U20, U0, U20> as $crate::runner::UnitFn),
        ("20x1x21", $f::<$e, U20, U1, U21> as $crate::runner::UnitFn),
        ("20x2x22", $f::<$e, U20, U2, U22> as $crate::runner::UnitFn),
        ("20x3x23", $f::<$e, U20, U3, U23> as $crate::runner::UnitFn),
        ("20x4x24", $f::<$e, U20, U4, U24> as $crate::runner::UnitFn),
        ("20x5x25", $f::<$e, U20, U5, U25> as $crate::runner::UnitFn),
        ("20x6x26", $f::<$e, U20, U6, U26> as $crate::runner::UnitFn),
        ("20x7x27", $f::<$e, U20, U7, U27> as $crate::runner::UnitFn),
        ("20x8x28", $f::<$e, U20, U8, U28> as $crate::runner::UnitFn),
        ("20x9x29", $f::<$e, U20, U9, U29> as $crate::runner::UnitFn),
        ("20x10x30", $f::<$e, U20, U10, U30> as $crate::runner::UnitFn),
        ("20x11x31", $f::<$e, U20, U11, U31> as $crate::runner::UnitFn),
        ("20x12x32", $f::<$e, U20, U12, U32> as $crate::runner::UnitFn),
        ("20x13x0", $f::<$e, U20, U13, U0> as $crate::runner::UnitFn),
        ("20x14x1", $f::<$e, U20, U14, U1> as $crate::runner::UnitFn),
        ("20x15x2", $f::<$e, U20, U15, U2> as $crate::runner::UnitFn),
        ("20x16x3", $f::<$e, U20, U16, U3> as $crate::runner::UnitFn),
        ("20x17x4", $f::<$e, U20, U17, U4> as $crate::runner::UnitFn),
        ("20x18x5", $f::<$e, U20, U18, U5> as $crate::runner::UnitFn),
        ("20x19x6", $f::<$e, U20, U19, U6> as $crate::runner::UnitFn),
        ("20x20x7", $f::<$e, U20, U20, U7> as $crate::runner::UnitFn),
        ("20x21x8", $f::<$e, U20, U21, U8> as $crate::runner::UnitFn),
        ("20x22x9", $f::<$e, U20, U22, U9> as $crate::runner::UnitFn),
        ("20x23x10", $f::<$e, U20, U23, U10> as $crate::runner::UnitFn),
        ("20x24x11", $f::<$e, U20, U24, U11> as $crate::runner::UnitFn),
        ("20x25x12", $f::<$e, U20, U25, U12> as $crate::runner::UnitFn),
        ("20x26x13", $f::<$e, U20, U26, U13> as $crate::runner::UnitFn),
        ("20x27x14", $f::<$e, U20, U27, U14> as $crate::runner::UnitFn),
        ("20x28x15", $f::<$e, U20, U28, U15> as $crate::runner::UnitFn),
        ("20x29x16", $f::<$e, U20, U29, U16> as $crate::runner::UnitFn),
        ("20x30x17", $f::<$e, U20, U30, U17> as $crate::runner::UnitFn),
        ("20x31x18", $f::<$e, U20, U31, U18> as $crate::runner::UnitFn),
        ("20x32x19", $f::<$e, U20, U32, U19> as $crate::runner::UnitFn),
        ("21x0x21", $f::<$e, U21, U0, U21> as $crate::runner::UnitFn),
        ("21x1x22", $f::<$e, U21, U1, U22> as $crate::runner::UnitFn),
        ("21x2x23", $f::<$e, U21, U2, U23> as $crate::runner::UnitFn),
        ("21x3x24", $f::<$e, U21, U3, U24> as $crate::runner::UnitFn),
        ("21x4x25", $f::<$e, U21, U4, U25> as $crate::runner::UnitFn),
        ("21x5x26", $f::<$e, U21, U5, U26> as $crate::runner::UnitFn),
        ("21x6x27", $f::<$e, U21, U6, U27> as $crate::runner::UnitFn),
        ("21x7x28", $f::<$e, U21, U7, U28> as $crate::runner::UnitFn),
        ("21x8x29", $f::<$e, U21, U8, U29> as $crate::runner::UnitFn),
        ("21x9x30", $f::<$e, U21, U9, U30> as $crate::runner::UnitFn),
        ("21x10x31", $f::<$e, U21, U10, U31> as $crate::runner::UnitFn),
        ("21x11x32", $f::<$e, U21, U11, U32> as $crate::runner::UnitFn),
        ("21x12x0", $f::<$e, U21, U12, U0> as $crate::runner::UnitFn),
        ("21x13x1", $f::<$e, U21, U13, U1> as $crate::runner::UnitFn),
        ("21x14x2", $f::<$e, U21, U14, U2> as $crate::runner::UnitFn),
        ("21x15x3", $f::<$e, U21, U15, U3> as $crate::runner::UnitFn),
        ("21x16x4", $f::<$e, U21, U16, U4> as $crate::runner::UnitFn),
        ("21x17x5", $f::<$e, U21, U17, U5> as $crate::runner::UnitFn),
        ("21x18x6", $f::<$e, U21, U18, U6> as $crate::runner::UnitFn),
        ("21x19x7", $f::<$e, U21, U19, U7> as $crate::runner::UnitFn),
        ("21x20x8", $f::<$e, U21, U20, U8> as $crate::runner::UnitFn),
        ("21x21x9", $f::<$e, U21, U21, U9> as $crate::runner::UnitFn),
        ("21x22x10", $f::<$e, U21, U22, U10> as $crate::runner::UnitFn),
        ("21x23x11", $f::<$e, U21, U23, U11> as $crate::runner::UnitFn),
        ("21x24x12", $f::<$e, U21, U24, U12> as $crate::runner::UnitFn),
        ("21x25x13", $f::<$e, U21, U25, U13> as $crate::runner::UnitFn),
        ("21x26x14", $f::<$e, U21, U26, U14> as $crate::runner::UnitFn),
        ("21x27x15", $f::<$e, U21, U27, U15> as $crate::runner::UnitFn),
        ("21x28x16", $f::<$e, U21, U28, U16> as $crate::runner::UnitFn),
        ("21x29x17", $f::<$e, U21, U29, U17> as $crate::runner::UnitFn),
        ("21x30x18", $f::<$e, U21, U30, U18> as $crate::runner::UnitFn),
        ("21x31x19", $f::<$e, U21, U31, U19> as $crate::runner::UnitFn),
        ("21x32x20", $f::<$e, U21, U32, U20> as $crate::runner::UnitFn),
        ("22x0x22", $f::<$e, U22, U0, U22> as $crate::runner::UnitFn),
        ("22x1x23", $f::<$e, U22, U1, U23> as $crate::runner::UnitFn),
        ("22x2x24", $f::<$e, U22, U2, U24> as $crate::runner::UnitFn),
        ("22x3x25", $f::<$e, U22, U3, U25> as $crate::runner::UnitFn),
        ("22x4x26", $f::<$e, U22, U4, U26> as $crate::runner::UnitFn),
        ("22x5x27", $f::<$e, U22, U5, U27> as $crate::runner::UnitFn),
        ("22x6x28", $f::<$e, U22, U6, U28> as $crate::runner::UnitFn),
        ("22x7x29", $f::<$e, U22, U7, U29> as $crate::runner::UnitFn),
        ("22x8x30", $f::<$e, U22, U8, U30> as $crate::runner::UnitFn),
        ("22x9x31", $f::<$e, U22, U9, U31> as $crate::runner::UnitFn),
        ("22x10x32", $f::<$e, U22, U10, U32> as $crate::runner::UnitFn),
        ("22x11x0", $f::<$e, U22, U11, U0> as $crate::runner::UnitFn),
        ("22x12x1", $f::<$e, U22, U12, U1> as $crate::runner::UnitFn),
        ("22x13x2", $f::<$e, U22, U13, U2> as $crate::runner::UnitFn),
        ("22x14x3", $f::<$e, U22, U14, U3> as $crate::runner::UnitFn),
        ("22x15x4", $f::<$e, U22, U15, U4> as $crate::runner::UnitFn),
        ("22x16x5", $f::<$e, U22, U16, U5> as $crate::runner::UnitFn),
        ("22x17x6", $f::<$e, U22, U17, U6> as $crate::runner::UnitFn),
        ("22x18x7", $f::<$e, U22, U18, U7> as $crate::runner::UnitFn),
        ("22x19x8", $f::<$e, U22, U19, U8> as $crate::runner::UnitFn),
        ("22x20x9", $f::<$e, U22, U20, U9> as $crate::runner::UnitFn),
        ("22x21x10", $f::<$e, U22, U21, U10> as $crate::runner::UnitFn),
        ("22x22x11", $f::<$e, U22, U22, U11> as $crate::runner::UnitFn),
        ("22x23x12", $f::<$e, U22, U23, U12> as $crate::runner::UnitFn),
        ("22x24x13", $f::<$e, U22, U24, U13> as $crate::runner::UnitFn),
        ("22x25x14", $f::<$e, U22, U25, U14> as $crate::runner::UnitFn),
        ("22x26x15", $f::<$e, U22, U26, U15> as $crate::runner::UnitFn),
        ("22x27x16", $f::<$e, U22, U27, U16> as $crate::runner::UnitFn),
        ("22x28x17", $f::<$e, U22, U28, U17> as $crate::runner::UnitFn),
        ("22x29x18", $f::<$e, U22, U29, U18> as $crate::runner::UnitFn),
        ("22x30x19", $f::<$e, U22, U30, U19> as $crate::runner::UnitFn),
        ("22x31x20", $f::<$e, U22, U31, U20> as $crate::runner::UnitFn),
        ("22x32x21", $f::<$e, U22, U32, U21> as $crate::runner::UnitFn),
        ("23x0x23", $f::<$e, U23, U0, U23> as $crate::runner::UnitFn),
        ("23x1x24", $f::<$e, U23, U1, U24> as $crate::runner::UnitFn),
        ("23x2x25", $f::<$e, U23, U2, U25> as $crate::runner::UnitFn),
        ("23x3x26", $f::<$e, U23, U3, U26> as $crate::runner::UnitFn),
        ("23x4x27", $f::<$e, U23, U4, U27> as $crate::runner::UnitFn),
        ("23x5x28", $f::<$e, U23, U5, U28> as $crate::runner::UnitFn),
        ("23x6x29", $f::<$e, U23, U6, U29> as $crate::runner::UnitFn),
        ("23x7x30", $f::<$e, U23, U7, U30> as $crate::runner::UnitFn),
        ("23x8x31", $f::<$e, U23, U8, U31> as $crate::runner::UnitFn),
        ("23x9x32", $f::<$e, U23, U9, U32> as $crate::runner::UnitFn),
        ("23x10x0", $f::<$e, U23, U10, U0> as $crate::runner::UnitFn),
        ("23x11x1", $f::<$e, U23, U11, U1> as $crate::runner::UnitFn),
        ("23x12x2", $f::<$e, U23, U12, U2> as $crate::runner::UnitFn),
        ("23x13x3", $f::<$e, U23, U13, U3> as $crate::runner::UnitFn),
        ("23x14x4", $f::<$e, U23, U14, U4> as $crate::runner::UnitFn),
        ("23x15x5", $f::<$e, U23, U15, U5> as $crate::runner::UnitFn),
        ("23x16x6", $f::<$e, U23, U16, U6> as $crate::runner::UnitFn),
        ("23x17x7", $f::<$e, U23, U17, U7> as $crate::runner::UnitFn),
        ("23x18x8", $f::<$e, U23, U18, U8> as $crate::runner::UnitFn),
        ("23x19x9", $f::<$e, U23, U19, U9> as $crate::runner::UnitFn),
        ("23x20x10", $f::<$e, U23, U20, U10> as $crate::runner::UnitFn),
        ("23x21x11", $f::<$e, U23, U21, U11> as $crate::runner::UnitFn),
        ("23x22x12", $f::<$e, U23, U22, U12> as $crate::runner::UnitFn),
        ("23x23x13", $f::<$e, U23, U23, U13> as $crate::runner::UnitFn),
        ("23x24x14", $f::<$e, U23, U24, U14> as $crate::runner::UnitFn),
        ("23x25x15", $f::<$e, U23, U25, U15> as $crate::runner::UnitFn),
        ("23x26x16", $f::<$e, U23, U26, U16> as $crate::runner::UnitFn),
        ("23x27x17", $f::<$e, U23, U27, U17> as $crate::runner::UnitFn),
        ("23x28x18", $f::<$e, U23, U28, U18> as $crate::runner::UnitFn),
        ("23x29x19", $f::<$e, U23, U29, U19> as $crate::runner::UnitFn),
        ("23x30x20", $f::<$e, U23, U30, U20> as $crate::runner::UnitFn),
        ("23x31x21", $f::<$e, U23, U31, U21> as $crate::runner::UnitFn),
        ("23x32x22", $f::<$e, U23, U32, U22> as $crate::runner::UnitFn),
        ("24x0x24", $f::<$e, U24, U0, U24> as $crate::runner::UnitFn),
        ("24x1x25", $f::<$e, U24, U1, U25> as $crate::runner::UnitFn),
        ("24x2x26", $f::<$e, U24, U2, U26> as $crate::runner::UnitFn),
        ("24x3x27", $f::<$e, U24, U3, U27> as $crate::runner::UnitFn),
        ("24x4x28", $f::<$e, U24, U4, U28> as $crate::runner::UnitFn),
        ("24x5x29", $f::<$e, U24, U5, U29> as $crate::runner::UnitFn),
        ("24x6x30", $f::<$e, U24, U6, U30> as $crate::runner::UnitFn),
        ("24x7x31", $f::<$e, U24, U7, U31> as $crate::runner::UnitFn),
        ("24x8x32", $f::<$e, U24, U8, U32> as $crate::runner::UnitFn),
        ("24x9x0", $f::<$e, U24, U9, U0> as $crate::runner::UnitFn),
        ("24x10x1", $f::<$e, U24, U10, U1> as $crate::runner::UnitFn),
        ("24x11x2", $f::<$e, U24, U11, U2> as $crate::runner::UnitFn),
        ("24x12x3", $f::<$e, U24, U12, U3> as $crate::runner::UnitFn),
        ("24x13x4", $f::<$e, U24, U13, U4> as $crate::runner::UnitFn),
        ("24x14x5", $f::<$e, U24, U14, U5> as $crate::runner::UnitFn),
        ("24x15x6", $f::<$e, U24, U15, U6> as $crate::runner::UnitFn),
        ("24x16x7", $f::<$e, U24, U16, U7> as $crate::runner::UnitFn),
        ("24x17x8", $f::<$e, U24, U17, U8> as $crate::runner::UnitFn),
        ("24x18x9", $f::<$e, U24, U18, U9> as $crate::runner::UnitFn),
        ("24x19x10", $f::<$e, U24, U19, U10> as $crate::runner::UnitFn),
        ("24x20x11", $f::<$e, U24, U20, U11> as $crate::runner::UnitFn),
        ("24x21x12", $f::<$e, U24, U21, U12> as $crate::runner::UnitFn),
        ("24x22x13", $f::<$e, U24, U22, U13> as $crate::runner::UnitFn),
        ("24x23x14", $f::<$e, U24, U23, U14> as $crate::runner::UnitFn),
        ("24x24x15", $f::<$e, U24, U24, U15> as $crate::runner::UnitFn),
        ("24x25x16", $f::<$e, U24, U25, U16> as $crate::runner::UnitFn),
        ("24x26x17", $f::<$e, U24, U26, U17> as $crate::runner::UnitFn),
        ("24x27x18", $f::<$e, U24, U27, U18> as $crate::runner::UnitFn),
        ("24x28x19", $f::<$e, U24, U28, U19> as $crate::runner::UnitFn),
        ("24x29x20", $f::<$e, U24, U29, U20> as $crate::runner::UnitFn),
        ("24x30x21", $f::<$e, U24, U30, U21> as $crate::runner::UnitFn),
        ("24x31x22", $f::<$e, U24, U31, U22> as $crate::runner::UnitFn),
        ("24x32x23", $f::<$e, U24, U32, U23> as $crate::runner::UnitFn),
        ("25x0x25", $f::<$e, U25, U0, U25> as $crate::runner::UnitFn),
        ("25x1x26", $f::<$e, U25, U1, U26> as $crate::runner::UnitFn),
        ("25x2x27", $f::<$e, U25, U2, U27> as $crate::runner::UnitFn),
        ("25x3x28", $f::<$e, U25, U3, U28> as $crate::runner::UnitFn),
        ("25x4x29", $f::<$e, U25, U4, U29> as $crate::runner::UnitFn),
        ("25x5x30", $f::<$e, U25, U5, U30> as $crate::runner::UnitFn),
        ("25x6x31", $f::<$e, U25, U6, U31> as $crate::runner::UnitFn),
        ("25x7x32", $f::<$e, U25, U7, U32> as $crate::runner::UnitFn),
        ("25x8x0", $f::<$e, U25, U8, U0> as $crate::runner::UnitFn),
        ("25x9x1", $f::<$e, U25, U9, U1> as $crate::runner::UnitFn),
        ("25x10x2", $f::<$e, U25, U10, U2> as $crate::runner::UnitFn),
        ("25x11x3", $f::<$e, U25, U11, U3> as $crate::runner::UnitFn),
        ("25x12x4", $f::<$e, U25, U12, U4> as $crate::runner::UnitFn),
        ("25x13x5", $f::<$e, U25, U13, U5> as $crate::runner::UnitFn),
        ("25x14x6", $f::<$e, U25, U14, U6> as $crate::runner::UnitFn),
        ("25x15x7", $f::<$e, U25, U15, U7> as $crate::runner::UnitFn),
        ("25x16x8", $f::<$e, U25, U16, U8> as $crate::runner::UnitFn),
        ("25x17x9", $f::<$e, U25, U17, U9> as $crate::runner::UnitFn),
        ("25x18x10", $f::<$e, U25, U18, U10> as $crate::runner::UnitFn),
        ("25x19x11", $f::<$e, U25, U19, U11> as $crate::runner::UnitFn),
        ("25x20x12", $f::<$e, U25, U20, U12> as $crate::runner::UnitFn),
        ("25x21x13", $f::<$e, U25, U21, U13> as $crate::runner::UnitFn),
        ("25x22x14", $f::<$e, U25, U22, U14> as $crate::runner::UnitFn),
        ("25x23x15", $f::<$e, U25, U23, U15> as $crate::runner::UnitFn),
        ("25x24x16", $f::<$e, U25, U24, U16> as $crate::runner::UnitFn),
        ("25x25x17", $f::<$e, U25, U25, U17> as $crate::runner::UnitFn),
        ("25x26x18", $f::<$e, U25, U26, U18> as $crate::runner::UnitFn),
        ("25x27x19", $f::<$e, U25, U27, U19> as $crate::runner::UnitFn),
        ("25x28x20", $f::<$e, U25, U28, U20> as $crate::runner::UnitFn),
        ("25x29x21", $f::<$e, U25, U29, U21> as $crate::runner::UnitFn),
        ("25x30x22", $f::<$e, U25, U30, U22> as $crate::runner::UnitFn),
        ("25x31x23", $f::<$e, U25, U31, U23> as $crate::runner::UnitFn),
        ("25x32x24", $f::<$e, U25, U32, U24> as $crate::runner::UnitFn),
        ("26x0x26", $f::<$e, U26, U0, U26> as $crate::runner::UnitFn),
        ("26x1x27", $f::<$e, U26, U1, U27> as $crate::runner::UnitFn),
        ("26x2x28", $f::<$e, U26, U2, U28> as $crate::runner::UnitFn),
        ("26x3x29", $f::<$e, U26, U3, U29> as $crate::runner::UnitFn),
        ("26x4x30", $f::<$e, U26, U4, U30> as $crate::runner::UnitFn),
        ("26x5x31", $f::<$e, U26, U5, U31> as $crate::runner::UnitFn),
        ("26x6x32", $f::<$e, U26, U6, U32> as $crate::runner::UnitFn),
        ("26x7x0", $f::<$e, U26, U7, U0> as $crate::runner::UnitFn),
        ("26x8x1", $f::<$e, U26, U8, U1> as $crate::runner::UnitFn),
        ("26x9x2", $f::<$e, U26, U9, U2> as $crate::runner::UnitFn),
        ("26x10x3", $f::<$e, U26, U10, U3> as $crate::runner::UnitFn),
        ("26x11x4", $f::<$e, U26, U11, U4> as $crate::runner::UnitFn),
        ("26x12x5", $f::<$e, U26, U12, U5> as $crate::runner::UnitFn),
        ("26x13x6", $f::<$e, U26, U13, U6> as $crate::runner::UnitFn),
        ("26x14x7", $f::<$e, U26, U14, U7> as $crate::runner::UnitFn),
        ("26x15x8", $f::<$e, U26, U15, U8> as $crate::runner::UnitFn),
        ("26x16x9", $f::<$e, U26, U16, U9> as $crate::runner::UnitFn),
        ("26x17x10", $f::<$e, U26, U17, U10> as $crate::runner::UnitFn),
        ("26x18x11", $f::<$e, U26, U18, U11> as $crate::runner::UnitFn),
        ("26x19x12", $f::<$e, U26, U19, U12> as $crate::runner::UnitFn),
        ("26x20x13", $f::<$e, U26, U20, U13> as $crate::runner::UnitFn),
        ("26x21x14", $f::<$e, U26, U21, U14> as $crate::runner::UnitFn),
        ("26x22x15", $f::<$e, U26, U22, U15> as $crate::runner::UnitFn),
        ("26x23x16", $f::<$e, U26, U23, U16> as $crate::runner::UnitFn),
        ("26x24x17", $f::<$e, U26, U24, U17> as $crate::runner::UnitFn),
        ("26x25x18", $f::<$e, U26, U25, U18> as $crate::runner::UnitFn),
        ("26x26x19", $f::<$e, U26, U26, U19> as $crate::runner::UnitFn),
        ("26x27x20", $f::<$e, U26, U27, U20> as $crate::runner::UnitFn),
        ("26x28x21", $f::<$e, U26, U28, U21> as $crate::runner::UnitFn),
        ("26x29x22", $f::<$e, U26, U29, U22> as $crate::runner::UnitFn),
        ("26x30x23", $f::<$e, U26, U30, U23> as $crate::runner::UnitFn),
        ("26x31x24", $f::<$e, U26, U31, U24> as $crate::runner::UnitFn),
        ("26x32x25", $f::<$e, U26, U32, U25> as $crate::runner::UnitFn),
        ("27x0x27", $f::<$e, U27, U0, U27> as $crate::runner::UnitFn),
        ("27x1x28", $f::<$e, U27, U1, U28> as $crate::runner::UnitFn),
        ("27x2x29", $f::<$e, U27, U2, U29> as $crate::runner::UnitFn),
        ("27x3x30", $f::<$e, U27, U3, U30> as $crate::runner::UnitFn),
        ("27x4x31", $f::<$e, U27, U4, U31> as $crate::runner::UnitFn),
        ("27x5x32", $f::<$e, U27, U5, U32> as $crate::runner::UnitFn),
        ("27x6x0", $f::<$e, U27, U6, U0> as $crate::runner::UnitFn),
        ("27x7x1", $f::<$e, U27, U7, U1> as $crate::runner::UnitFn),
        ("27x8x2", $f::<$e, U27, U8, U2> as $crate::runner::UnitFn),
        ("27x9x3", $f::<$e, U27, U9, U3> as $crate::runner::UnitFn),
        ("27x10x4", $f::<$e, U27, U10, U4> as $crate::runner::UnitFn),
        ("27x11x5", $f::<$e, U27, U11, U5> as $crate::runner::UnitFn),
        ("27x12x6", $f::<$e, U27, U12, U6> as $crate::runner::UnitFn),
        ("27x13x7", $f::<$e, U27, U13, U7> as $crate::runner::UnitFn),
        ("27x14x8", $f::<$e, U27, U14, U8> as $crate::runner::UnitFn),
        ("27x15x9", $f::<$e, U27, U15, U9> as $crate::runner::UnitFn),
        ("27x16x10", $f::<$e, U27, U16, U10> as $crate::runner::UnitFn),
        ("27x17x11", $f::<$e, U27, U17, U11> as $crate::runner::UnitFn),
        ("27x18x12", $f::<$e, U27, U18, U12> as $crate::runner::UnitFn),
        ("27x19x13", $f::<$e, U27, U19, U13> as $crate::runner::UnitFn),
        ("27x20x14", $f::<$e, U27, U20, U14> as $crate::runner::UnitFn),
        ("27x21x15", $f::<$e, U27, U21, U15> as $crate::runner::UnitFn),
        ("27x22x16", $f::<$e, U27, U22, U16> as $crate::runner::UnitFn),
        ("27x23x17", $f::<$e, U27, U23, U17> as $crate::runner::UnitFn),
        ("27x24x18", $f::<$e, U27, U24, U18> as $crate::runner::UnitFn),
        ("27x25x19", $f::<$e, U27, U25, U19> as $crate::runner::UnitFn),
        ("27x26x20", $f::<$e, U27, U26, U20> as $crate::runner::UnitFn),
        ("27x27x21", $f::<$e, U27, U27, U21> as $crate::runner::UnitFn),
        ("27x28x22", $f::<$e, U27, U28, U22> as $crate::runner::UnitFn),
        ("27x29x23", $f::<$e, U27, U29, U23> as $crate::runner::UnitFn),
        ("27x30x24", $f::<$e, U27, U30, U24> as $crate::runner::UnitFn),
        ("27x31x25", $f::<$e, U27, U31, U25> as $crate::runner::UnitFn),
        ("27x32x26", $f::<$e, U27, U32, U26> as $crate::runner::UnitFn),
        ("28x0x28", $f::<$e, U28, U0, U28> as $crate::runner::UnitFn),
        ("28x1x29", $f::<$e, U28, U1, U29> as $crate::runner::UnitFn),
        ("28x2x30", $f::<$e, U28, U2, U30> as $crate::runner::UnitFn),
        ("28x3x31", $f::<$e, U28, U3, U31> as $crate::runner::UnitFn),
        ("28x4x32", $f::<$e, U28, U4, U32> as $crate::runner::UnitFn),
        ("28x5x0", $f::<$e, U28, U5, U0> as $crate::runner::UnitFn),
        ("28x6x1", $f::<$e, U28, U6, U1> as $crate::runner::UnitFn),
        ("28x7x2", $f::<$e, U28, U7, U2> as $crate::runner::UnitFn),
        ("28x8x3", $f::<$e, U28, U8, U3> as $crate::runner::UnitFn),
        ("28x9x4", $f::<$e, U28, U9, U4> as $crate::runner::UnitFn),
        ("28x10x5", $f::<$e, U28, U10, U5> as $crate::runner::UnitFn),
        ("28x11x6", $f::<$e, U28, U11, U6> as $crate::runner::UnitFn),
        ("28x12x7", $f::<$e, U28, U12, U7> as $crate::runner::UnitFn),
        ("28x13x8", $f::<$e, U28, U13, U8> as $crate::runner::UnitFn),
        ("28x14x9", $f::<$e, U28, U14, U9> as $crate::runner::UnitFn),
        ("28x15x10", $f::<$e, U28, U15, U10> as $crate::runner::UnitFn),
        ("28x16x11", $f::<$e, U28, U16, U11> as $crate::runner::UnitFn),
        ("28x17x12", $f::<$e, U28, U17, U12> as $crate::runner::UnitFn),
        ("28x18x13", $f::<$e, U28, U18, U13> as $crate::runner::UnitFn),
        ("28x19x14", $f::<$e, U28, U19, U14> as $crate::runner::UnitFn),
        ("28x20x15", $f::<$e, U28, U20, U15> as $crate::runner::UnitFn),
        ("28x21x16", $f::<$e, U28, U21, U16> as $crate::runner::UnitFn),
        ("28x22x17", $f::<$e, U28, U22, U17> as $crate::runner::UnitFn),
        ("28x23x18", $f::<$e, U28, U23, U18> as $crate::runner::UnitFn),
        ("28x24x19", $f::<$e, U28, U24, U19> as $crate::runner::UnitFn),
        ("28x25x20", $f::<$e, U28, U25, U20> as $crate::runner::UnitFn),
        ("28x26x21", $f::<$e, U28, U26, U21> as $crate::runner::UnitFn),
        ("28x27x22", $f::<$e, U28, U27, U22> as $crate::runner::UnitFn),
        ("28x28x23", $f::<$e, U28, U28, U23> as $crate::runner::UnitFn),
        ("28x29x24", $f::<$e, U28, U29, U24> as $crate::runner::UnitFn),
        ("28x30x25", $f::<$e, U28, U30, U25> as $crate::runner::UnitFn),
        ("28x31x26", $f::<$e, U28, U31, U26> as $crate::runner::UnitFn),
        ("28x32x27", $f::<$e, U28, U32, U27> as $crate::runner::UnitFn),
        ("29x0x29", $f::<$e, U29, U0, U29> as $crate::runner::UnitFn),
        ("29x1x30", $f::<$e, U29, U1, U30> as $crate::runner::UnitFn),
        ("29x2x31", $f::<$e, U29, U2, U31> as $crate::runner::UnitFn),
        ("29x3x32", $f::<$e, U29, U3, U32> as $crate::runner::UnitFn),
        ("29x4x0", $f::<$e, U29, U4, U0> as $crate::runner::UnitFn),
        ("29x5x1", $f::<$e, U29, U5, U1> as $crate::runner::UnitFn),
        ("29x6x2", $f::<$e, U29, U6, U2> as $crate::runner::UnitFn),
        ("29x7x3", $f::<$e, U29, U7, U3> as $crate::runner::UnitFn),
        ("29x8x4", $f::<$e, U29, U8, U4> as $crate::runner::UnitFn),
        ("29x9x5", $f::<$e, U29, U9, U5> as $crate::runner::UnitFn),
        ("29x10x6", $f::<$e, U29, U10, U6> as $crate::runner::UnitFn),
        ("29x11x7", $f::<$e, U29, U11, U7> as $crate::runner::UnitFn),
        ("29x12x8", $f::<$e, U29, U12, U8> as $crate::runner::UnitFn),
        ("29x13x9", $f::<$e, U29, U13, U9> as $crate::runner::UnitFn),
        ("29x14x10", $f::<$e, U29, U14, U10> as $crate::runner::UnitFn),
        ("29x15x11", $f::<$e, U29, U15, U11> as $crate::runner::UnitFn),
        ("29x16x12", $f::<$e, U29, U16, U12> as $crate::runner::UnitFn),
        ("29x17x13", $f::<$e, U29, U17, U13> as $crate::runner::UnitFn),
        ("29x18x14", $f::<$e, U29, U18, U14> as $crate::runner::UnitFn),
        ("29x19x15", $f::<$e, U29, U19, U15> as $crate::runner::UnitFn),
        ("29x20x16", $f::<$e, U29, U20, U16> as $crate::runner::UnitFn),
        ("29x21x17", $f::<$e, U29, U21, U17> as $crate::runner::UnitFn),
        ("29x22x18", $f::<$e, U29, U22, U18> as $crate::runner::UnitFn),
        ("29x23x19", $f::<$e, U29, U23, U19> as $crate::runner::UnitFn),
        ("29x24x20", $f::<$e, U29, U24, U20> as $crate::runner::UnitFn),
        ("29x25x21", $f::<$e, U29, U25, U21> as $crate::runner::UnitFn),
        ("29x26x22", $f::<$e, U29, U26, U22> as $crate::runner::UnitFn),
        ("29x27x23", $f::<$e, U29, U27, U23> as $crate::runner::UnitFn),
        ("29x28x24", $f::<$e, U29, U28, U24> as $crate::runner::UnitFn),
        ("29x29x25", $f::<$e, U29, U29, U25> as $crate::runner::UnitFn),
        ("29x30x26", $f::<$e, U29, U30, U26> as $crate::runner::UnitFn),
        ("29x31x27", $f::<$e, U29, U31, U27> as $crate::runner::UnitFn),
        ("29x32x28", $f::<$e, U29, U32, U28> as $crate::runner::UnitFn),
        ("30x0x30", $f::<$e, U30, U0, U30> as $crate::runner::UnitFn),
        ("30x1x31", $f::<$e, U30, U1, U31> as $crate::runner::UnitFn),
        ("30x2x32", $f::<$e, U30, U2, U32> as $crate::runner::UnitFn),
        ("30x3x0", $f::<$e, U30, U3, U0> as $crate::runner::UnitFn),
        ("30x4x1", $f::<$e, U30, U4, U1> as $crate::runner::UnitFn),
        ("30x5x2", $f::<$e, U30, U5, U2> as $crate::runner::UnitFn),
        ("30x6x3", $f::<$e, U30, U6, U3> as $crate::runner::UnitFn),
        ("30x7x4", $f::<$e, U30, U7, U4> as $crate::runner::UnitFn),
        ("30x8x5", $f::<$e, U30, U8, U5> as $crate::runner::UnitFn),
        ("30x9x6", $f::<$e, U30, U9, U6> as $crate::runner::UnitFn),
        ("30x10x7", $f::<$e, U30, U10, U7> as $crate::runner::UnitFn),
        ("30x11x8", $f::<$e, U30, U11, U8> as $crate::runner::UnitFn),
        ("30x12x9", $f::<$e, U30, U12, U9> as $crate::runner::UnitFn),
        ("30x13x10", $f::<$e, U30, U13, U10> as $crate::runner::UnitFn),
        ("30x14x11", $f::<$e, U30, U14, U11> as $crate::runner::UnitFn),
        ("30x15x12", $f::<$e, U30, U15, U12> as $crate::runner::UnitFn),
        ("30x16x13", $f::<$e, U30, U16, U13> as $crate::runner::UnitFn),
        ("30x17x14", $f::<$e, U30, U17, U14> as $crate::runner::UnitFn),
        ("30x18x15", $f::<$e, U30, U18, U15> as $crate::runner::UnitFn),
        ("30x19x16", $f::<$e, U30, U19, U16> as $crate::runner::UnitFn),
        ("30x20x17", $f::<$e, U30, U20, U17> as $crate::runner::UnitFn),
        ("30x21x18", $f::<$e, U30, U21, U18> as $crate::runner::UnitFn),
        ("30x22x19", $f::<$e, U30, U22, U19> as $crate::runner::UnitFn),
        ("30x23x20", $f::<$e, U30, U23, U20> as $crate::runner::UnitFn),
        ("30x24x21", $f::<$e, U30, U24, U21> as $crate::runner::UnitFn),
        ("30x25x22", $f::<$e, U30, U25, U22> as $crate::runner::UnitFn),
        ("30x26x23", $f::<$e, U30, U26, U23> as $crate::runner::UnitFn),
        ("30x27x24", $f::<$e, U30, U27, U24> as $crate::runner::UnitFn),
        ("30x28x25", $f::<$e, U30, U28, U25> as $crate::runner::UnitFn),
        ("30x29x26", $f::<$e, U30, U29, U26> as $crate::runner::UnitFn),
        ("30x30x27", $f::<$e, U30, U30, U27> as $crate::runner::UnitFn),
        ("30x31x28", $f::<$e, U30, U31, U28> as $crate::runner::UnitFn),
        ("30x32x29", $f::<$e, U30, U32, U29> as $crate::runner::UnitFn),
        ("31x0x31", $f::<$e, U31, U0, U31> as $crate::runner::UnitFn),
        ("31x1x32", $f::<$e, U31, U1, U32> as $crate::runner::UnitFn),
        ("31x2x0", $f::<$e, U31, U2, U0> as $crate::runner::UnitFn),
        ("31x3x1", $f::<$e, U31, U3, U1> as $crate::runner::UnitFn),
        ("31x4x2", $f::<$e, U31, U4, U2> as $crate::runner::UnitFn),
        ("31x5x3", $f::<$e, U31, U5, U3> as $crate::runner::UnitFn),
        ("31x6x4", $f::<$e, U31, U6, U4> as $crate::runner::UnitFn),
        ("31x7x5", $f::<$e, U31, U7, U5> as $crate::runner::UnitFn),
        ("31x8x6", $f::<$e, U31, U8, U6> as $crate::runner::UnitFn),
        ("31x9x7", $f::<$e, U31, U9, U7> as $crate::runner::UnitFn),
        ("31x10x8", $f::<$e, U31, U10, U8> as $crate::runner::UnitFn),
        ("31x11x9", $f::<$e, U31, U11, U9> as $crate::runner::UnitFn),
        ("31x12x10", $f::<$e, U31, U12, U10> as $crate::runner::UnitFn),
        ("31x13x11", $f::<$e, U31, U13, U11> as $crate::runner::UnitFn),
        ("31x14x12", $f::<$e, U31, U14, U12> as $crate::runner::UnitFn),
        ("31x15x13", $f::<$e, U31, U15, U13> as $crate::runner::UnitFn),
        ("31x16x14", $f::<$e, U31, U16, U14> as $crate::runner::UnitFn),
        ("31x17x15", $f::<$e, U31, U17, U15> as $crate::runner::UnitFn),
        ("31x18x16", $f::<$e, U31, U18, U16> as $crate::runner::UnitFn),
        ("31x19x17", $f::<$e, U31, U19, U17> as $crate::runner::UnitFn),
        ("31x20x18", $f::<$e, U31, U20, U18> as $crate::runner::UnitFn),
        ("31x21x19", $f::<$e, U31, U21, U19> as $crate::runner::UnitFn),
        ("31x22x20", $f::<$e, U31, U22, U20> as $crate::runner::UnitFn),
        ("31x23x21", $f::<$e, U31, U23, U21> as $crate::runner::UnitFn),
        ("31x24x22", $f::<$e, U31, U24, U22> as $crate::runner::UnitFn),
        ("31x25x23", $f::<$e, U31, U25, U23> as $crate::runner::UnitFn),
        ("31x26x24", $f::<$e, U31, U26, U24> as $crate::runner::UnitFn),
        ("31x27x25", $f::<$e, U31, U27, U25> as $crate::runner::UnitFn),
        ("31x28x26", $f::<$e, U31, U28, U26> as $crate::runner::UnitFn),
        ("31x29x27", $f::<$e, U31, U29, U27> as $crate::runner::UnitFn),
        ("31x30x28", $f::<$e, U31, U30, U28> as $crate::runner::UnitFn),
        ("31x31x29", $f::<$e, U31, U31, U29> as $crate::runner::UnitFn),
        ("31x32x30", $f::<$e, U31, U32, U30> as $crate::runner::UnitFn),
        ("32x0x32", $f::<$e, U32, U0, U32> as $crate::runner::UnitFn),
        ("32x1x0", $f::<$e, U32, U1, U0> as $crate::runner::UnitFn),
        ("32x2x1", $f::<$e, U32, U2, U1> as $crate::runner::UnitFn),
        ("32x3x2", $f::<$e, U32, U3, U2> as $crate::runner::UnitFn),
        ("32x4x3", $f::<$e, U32, U4, U3> as $crate::runner::UnitFn),
        ("32x5x4", $f::<$e, U32, U5, U4> as $crate::runner::UnitFn),
        ("32x6x5", $f::<$e, U32, U6, U5> as $crate::runner::UnitFn),
        ("32x7x6", $f::<$e, U32, U7, U6> as $crate::runner::UnitFn),
        ("32x8x7", $f::<$e, U32, U8, U7> as $crate::runner::UnitFn),
        ("32x9x8", $f::<$e, U32, U9, U8> as $crate::runner::UnitFn),
        ("32x10x9", $f::<$e, U32, U10, U9> as $crate::runner::UnitFn),
        ("32x11x10", $f::<$e, U32, U11, U10> as $crate::runner::UnitFn),
        ("32x12x11", $f::<$e, U32, U12, U11> as $crate::runner::UnitFn),
        ("32x13x12", $f::<$e, U32, U13, U12> as $crate::runner::UnitFn),
        ("32x14x13", $f::<$e, U32, U14, U13> as $crate::runner::UnitFn),
        ("32x15x14", $f::<$e, U32, U15, U14> as $crate::runner::UnitFn),
        ("32x16x15", $f::<$e, U32, U16, U15> as $crate::runner::UnitFn),
        ("32x17x16", $f::<$e, U32, U17, U16> as $crate::runner::UnitFn),
        ("32x18x17", $f::<$e, U32, U18, U17> as $crate::runner::UnitFn),
        ("32x19x18", $f::<$e, U32, U19, U18> as $crate::runner::UnitFn),
        ("32x20x19", $f::<$e, U32, U20, U19> as $crate::runner::UnitFn),
        ("32x21x20", $f::<$e, U32, U21, U20> as $crate::runner::UnitFn),
        ("32x22x21", $f::<$e, U32, U22, U21> as $crate::runner::UnitFn),
        ("32x23x22", $f::<$e, U32, U23, U22> as $crate::runner::UnitFn),
        ("32x24x23", $f::<$e, U32, U24, U23> as $crate::runner::UnitFn),
        ("32x25x24", $f::<$e, U32, U25, U24> as $crate::runner::UnitFn),
        ("32x26x25", $f::<$e, U32, U26, U25> as $crate::runner::UnitFn),
        ("32x27x26", $f::<$e, U32, U27, U26> as $crate::runner::UnitFn),
        ("32x28x27", $f::<$e, U32, U28, U27> as $crate::runner::UnitFn),
        ("32x29x28", $f::<$e, U32, U29, U28> as $crate::runner::UnitFn),
        ("32x30x29", $f::<$e, U32, U30, U29> as $crate::runner::UnitFn),
        ("32x31x30", $f::<$e, U32, U31, U30> as $crate::runner::UnitFn),
        ("32x32x31", $f::<$e, U32, U32, U31> as $crate::runner::UnitFn),
    ] };
}

/// a spread of triples
#[macro_export]
macro_rules! dims_spread_triples {
    ($f:ident) => { &[
        ("0x0x0", $f::<U0, U0, U0> as $crate::runner::UnitFn),
        ("0x0x1", $f::<U0, U0, U1> as $crate::runner::UnitFn),
        ("0x0x2", $f::<U0, U0, U2> as $crate::runner::UnitFn),
        ("0x0x3", $f::<U0, U0, U3> as $crate::runner::UnitFn),
        ("0x0x29", $f::<U0, U0, U29> as $crate::runner::UnitFn),
        ("0x1x0", $f::<U0, U1, U0> as $crate::runner::UnitFn),
        ("0x1x1", $f::<U0, U1, U1> as $crate::runner::UnitFn),
        ("0x1x2", $f::<U0, U1, U2> as $crate::runner::UnitFn),
        ("0x1x3", $f::<U0, U1, U3> as $crate::runner::UnitFn),
        ("0x1x12", $f::<U0, U1, U12> as $crate::runner::UnitFn),
        ("0x2x0", $f::<U0, U2, U0> as $crate::runner::UnitFn),
        ("0x2x1", $f::<U0, U2, U1> as $crate::runner::UnitFn),
        ("0x2x2", $f::<U0, U2, U2> as $crate::runner::UnitFn),
        ("0x2x3", $f::<U0, U2, U3> as $crate::runner::UnitFn),
        ("0x2x32", $f::<U0, U2, U32> as $crate::runner::UnitFn),
        ("0x3x0", $f::<U0, U3, U0> as $crate::runner::UnitFn),
        ("0x3x1", $f::<U0, U3, U1> as $crate::runner::UnitFn),
        ("0x3x2", $f::<U0, U3, U2> as $crate::runner::UnitFn),
        ("0x3x3", $f::<U0, U3, U3> as $crate::runner::UnitFn),
        ("0x3x11", $f::<U0, U3, U11> as $crate::runner::UnitFn),
        ("0x4x19", $f::<U0, U4, U19> as $crate::runner::UnitFn),
        ("0x5x2", $f::<U0, U5, U2> as $crate::runner::UnitFn),
        ("0x8x28", $f::<U0, U8, U28> as $crate::runner::UnitFn),
        ("0x9x2", $f::<U0, U9, U2> as $crate::runner::UnitFn),
        ("0x11x7", $f::<U0, U11, U7> as $crate::runner::UnitFn),
        ("0x14x0", $f::<U0, U14, U0> as $crate::runner::UnitFn),
        ("0x14x16", $f::<U0, U14, U16> as $crate::runner::UnitFn),
        ("0x21x1", $f::<U0, U21, U1> as $crate::runner::UnitFn),
        ("0x31x0", $f::<U0, U31, U0> as $crate::runner::UnitFn),
        ("0x31x8", $f::<U0, U31, U8> as $crate::runner::UnitFn),
        ("0x32x31", $f::<U0, U32, U31> as $crate::runner::UnitFn),
        ("1x0x0", $f::<U1, U0, U0> as $crate::runner::UnitFn),
        ("1x0x1", $f::<U1, U0, U1> as $crate::runner::UnitFn),
        ("1x0x2", $f::<U1, U0, U2> as $crate::runner::UnitFn),
        ("1x0x3", $f::<U1, U0, U3> as $crate::runner::UnitFn),
        ("1x1x0", $f::<U1, U1, U0> as $crate::runner::UnitFn),
        ("1x1x1", $f::<U1, U1, U1> as $crate::runner::UnitFn),
        ("1x1x2", $f::<U1, U1, U2> as $crate::runner::UnitFn),
        ("1x1x3", $f::<U1, U1, U3> as $crate::runner::UnitFn),
        ("1x1x15", $f::<U1, U1, U15> as $crate::runner::UnitFn),
        ("1x2x0", $f::<U1, U2, U0> as $crate::runner::UnitFn),
        ("1x2x1", $f::<U1, U2, U1> as $crate::runner::UnitFn),
        ("1x2x2", $f::<U1, U2, U2> as $crate::runner::UnitFn),
        ("1x2x3", $f::<U1, U2, U3> as $crate::runner::UnitFn),
        ("1x2x8", $f::<U1, U2, U8> as $crate::runner::UnitFn),
        ("1x3x0", $f::<U1, U3, U0> as $crate::runner::UnitFn),
        ("1x3x1", $f::<U1, U3, U1> as $crate::runner::UnitFn),
        ("1x3x2", $f::<U1, U3, U2> as $crate::runner::UnitFn),
        ("1x3x3", $f::<U1, U3, U3> as $crate::runner::UnitFn),
        ("1x3x4", $f::<U1, U3, U4> as $crate::runner::UnitFn),
        ("1x4x12", $f::<U1, U4, U12> as $crate::runner::UnitFn),
        ("1x8x5", $f::<U1, U8, U5> as $crate::runner::UnitFn),
        ("1x10x32", $f::<U1, U10, U32> as $crate::runner::UnitFn),
        ("1x13x17", $f::<U1, U13, U17> as $crate::runner::UnitFn),
        ("1x16x17", $f::<U1, U16, U17> as $crate::runner::UnitFn),
        ("1x17x5", $f::<U1, U17, U5> as $crate::runner::UnitFn),
        ("1x18x31", $f::<U1, U18, U31> as $crate::runner::UnitFn),
        ("1x23x7", $f::<U1, U23, U7> as $crate::runner::UnitFn),
        ("1x32x14", $f::<U1, U32, U14> as $crate::runner::UnitFn),
        ("2x0x0", $f::<U2, U0, U0> as $crate::runner::UnitFn),
        ("2x0x1", $f::<U2, U0, U1> as $crate::runner::UnitFn),
        ("2x0x2", $f::<U2, U0, U2> as $crate::runner::UnitFn),
        ("2x0x3", $f::<U2, U0, U3> as $crate::runner::UnitFn),
        ("2x0x8", $f::<U2, U0, U8> as $crate::runner::UnitFn),
        ("2x1x0", $f::<U2, U1, U0> as $crate::runner::UnitFn),
        ("2x1x1", $f::<U2, U1, U1> as $crate::runner::UnitFn),
        ("2x1x2", $f::<U2, U1, U2> as $crate::runner::UnitFn),
        ("2x1x3", $f::<U2, U1, U3> as $crate::runner::UnitFn),
        ("2x1x6", $f::<U2, U1, U6> as $crate::runner::UnitFn),
        ("2x1x17", $f::<U2, U1, U17> as $crate::runner::UnitFn),
        ("2x2x0", $f::<U2, U2, U0> as $crate::runner::UnitFn),
        ("2x2x1", $f::<U2, U2, U1> as $crate::runner::UnitFn),
        ("2x2x2", $f::<U2, U2, U2> as $crate::runner::UnitFn),
        ("2x2x3", $f::<U2, U2, U3> as $crate::runner::UnitFn),
        ("2x2x18", $f::<U2, U2, U18> as $crate::runner::UnitFn),
        ("2x3x0", $f::<U2, U3, U0> as $crate::runner::UnitFn),
        ("2x3x1", $f::<U2, U3, U1> as $crate::runner::UnitFn),
        ("2x3x2", $f::<U2, U3, U2> as $crate::runner::UnitFn),
        ("2x3x3", $f::<U2, U3, U3> as $crate::runner::UnitFn),
        ("2x5x4", $f::<U2, U5, U4> as $crate::runner::UnitFn),
        ("2x5x13", $f::<U2, U5, U13> as $crate::runner::UnitFn),
        ("2x7x2", $f::<U2, U7, U2> as $crate::runner::UnitFn),
        ("2x8x24", $f::<U2, U8, U24> as $crate::runner::UnitFn),
        ("2x17x4", $f::<U2, U17, U4> as $crate::runner::UnitFn),
        ("2x17x17", $f::<U2, U17, U17> as $crate::runner::UnitFn),
        ("2x31x0", $f::<U2, U31, U0> as $crate::runner::UnitFn),
        ("2x31x16", $f::<U2, U31, U16> as $crate::runner::UnitFn),
        ("2x32x17", $f::<U2, U32, U17> as $crate::runner::UnitFn),
        ("3x0x0", $f::<U3, U0, U0> as $crate::runner::UnitFn),
        ("3x0x1", $f::<U3, U0, U1> as $crate::runner::UnitFn),
        ("3x0x2", $f::<U3, U0, U2> as $crate::runner::UnitFn),
        ("3x0x3", $f::<U3, U0, U3> as $crate::runner::UnitFn),
        ("3x0x19", $f::<U3, U0, U19> as $crate::runner::UnitFn),
        ("3x1x0", $f::<U3, U1, U0> as $crate::runner::UnitFn),
        ("3x1x1", $f::<U3, U1, U1> as $crate::runner::UnitFn),
        ("3x1x2", $f::<U3, U1, U2> as $crate::runner::UnitFn),
        ("3x1x3", $f::<U3, U1, U3> as $crate::runner::UnitFn),
        ("3x1x17", $f::<U3, U1, U17> as $crate::runner::UnitFn),
        ("3x1x26", $f::<U3, U1, U26> as $crate::runner::UnitFn),
        ("3x2x0", $f::<U3, U2, U0> as $crate::runner::UnitFn),
        ("3x2x1", $f::<U3, U2, U1> as $crate::runner::UnitFn),
        ("3x2x2", $f::<U3, U2, U2> as $crate::runner::UnitFn),
        ("3x2x3", $f::<U3, U2, U3> as $crate::runner::UnitFn),
        ("3x3x0", $f::<U3, U3, U0> as $crate::runner::UnitFn),
        ("3x3x1", $f::<U3, U3, U1> as $crate::runner::UnitFn),
        ("3x3x2", $f::<U3, U3, U2> as $crate::runner::UnitFn),
        ("3x3x3", $f::<U3, U3, U3> as $crate::runner::UnitFn),
        ("3x3x15", $f::<U3, U3, U15> as $crate::runner::UnitFn),
        ("3x5x29", $f::<U3, U5, U29> as $crate::runner::UnitFn),
        ("3x8x12", $f::<U3, U8, U12> as $crate::runner::UnitFn),
        ("3x14x32", $f::<U3, U14, U32> as $crate::runner::UnitFn),
        ("3x15x0", $f::<U3, U15, U0> as $crate::runner::UnitFn),
        ("3x15x7", $f::<U3, U15, U7> as $crate::runner::UnitFn),
        ("3x16x12", $f::<U3, U16, U12> as $crate::runner::UnitFn),
        ("3x22x31", $f::<U3, U22, U31> as $crate::runner::UnitFn),
        ("3x23x1", $f::<U3, U23, U1> as $crate::runner::UnitFn),
        ("3x25x8", $f::<U3, U25, U8> as $crate::runner::UnitFn),
        ("3x30x16", $f::<U3, U30, U16> as $crate::runner::UnitFn),
        ("3x32x24", $f::<U3, U32, U24> as $crate::runner::UnitFn),
        ("4x0x26", $f::<U4, U0, U26> as $crate::runner::UnitFn),
        ("4x2x7", $f::<U4, U2, U7> as $crate::runner::UnitFn),
        ("4x2x19", $f::<U4, U2, U19> as $crate::runner::UnitFn),
        ("4x2x32", $f::<U4, U2, U32> as $crate::runner::UnitFn),
        ("4x4x4", $f::<U4, U4, U4> as $crate::runner::UnitFn),
        ("4x4x11", $f::<U4, U4, U11> as $crate::runner::UnitFn),
        ("4x5x6", $f::<U4, U5, U6> as $crate::runner::UnitFn),
        ("4x6x8", $f::<U4, U6, U8> as $crate::runner::UnitFn),
        ("4x7x9", $f::<U4, U7, U9> as $crate::runner::UnitFn),
        ("4x8x0", $f::<U4, U8, U0> as $crate::runner::UnitFn),
        ("4x8x16", $f::<U4, U8, U16> as $crate::runner::UnitFn),
        ("4x16x21", $f::<U4, U16, U21> as $crate::runner::UnitFn),
        ("4x22x16", $f::<U4, U22, U16> as $crate::runner::UnitFn),
        ("4x25x1", $f::<U4, U25, U1> as $crate::runner::UnitFn),
        ("4x31x4", $f::<U4, U31, U4> as $crate::runner::UnitFn),
        ("4x32x15", $f::<U4, U32, U15> as $crate::runner::UnitFn),
        ("5x0x23", $f::<U5, U0, U23> as $crate::runner::UnitFn),
        ("5x1x2", $f::<U5, U1, U2> as $crate::runner::UnitFn),
        ("5x1x29", $f::<U5, U1, U29> as $crate::runner::UnitFn),
        ("5x2x30", $f::<U5, U2, U30> as $crate::runner::UnitFn),
        ("5x3x1", $f::<U5, U3, U1> as $crate::runner::UnitFn),
        ("5x4x24", $f::<U5, U4, U24> as $crate::runner::UnitFn),
        ("5x5x0", $f::<U5, U5, U0> as $crate::runner::UnitFn),
        ("5x5x5", $f::<U5, U5, U5> as $crate::runner::UnitFn),
        ("5x5x9", $f::<U5, U5, U9> as $crate::runner::UnitFn),
        ("5x6x8", $f::<U5, U6, U8> as $crate::runner::UnitFn),
        ("5x7x14", $f::<U5, U7, U14> as $crate::runner::UnitFn),
        ("5x16x12", $f::<U5, U16, U12> as $crate::runner::UnitFn),
        ("5x17x12", $f::<U5, U17, U12> as $crate::runner::UnitFn),
        ("5x19x17", $f::<U5, U19, U17> as $crate::runner::UnitFn),
        ("5x22x2", $f::<U5, U22, U2> as $crate::runner::UnitFn),
        ("5x29x5", $f::<U5, U29, U5> as $crate::runner::UnitFn),
        ("5x31x2", $f::<U5, U31, U2> as $crate::runner::UnitFn),
        ("5x32x8", $f::<U5, U32, U8> as $crate::runner::UnitFn),
        ("5x32x30", $f::<U5, U32, U30> as $crate::runner::UnitFn),
        ("6x0x3", $f::<U6, U0, U3> as $crate::runner::UnitFn),
        ("6x2x31", $f::<U6, U2, U31> as $crate::runner::UnitFn),
        ("6x4x1", $f::<U6, U4, U1> as $crate::runner::UnitFn),
        ("6x6x6", $f::<U6, U6, U6> as $crate::runner::UnitFn),
        ("6x8x3", $f::<U6, U8, U3> as $crate::runner::UnitFn),
        ("7x1x6", $f::<U7, U1, U6> as $crate::runner::UnitFn),
        ("7x1x32", $f::<U7, U1, U32> as $crate::runner::UnitFn),
        ("7x2x32", $f::<U7, U2, U32> as $crate::runner::UnitFn),
        ("7x4x25", $f::<U7, U4, U25> as $crate::runner::UnitFn),
        ("7x5x31", $f::<U7, U5, U31> as $crate::runner::UnitFn),
        ("7x7x7", $f::<U7, U7, U7> as $crate::runner::UnitFn),
        ("7x7x11", $f::<U7, U7, U11> as $crate::runner::UnitFn),
        ("7x8x17", $f::<U7, U8, U17> as $crate::runner::UnitFn),
        ("7x10x5", $f::<U7, U10, U5> as $crate::runner::UnitFn),
        ("7x16x16", $f::<U7, U16, U16> as $crate::runner::UnitFn),
        ("7x17x0", $f::<U7, U17, U0> as $crate::runner::UnitFn),
        ("7x17x30", $f::<U7, U17, U30> as $crate::runner::UnitFn),
        ("7x25x1", $f::<U7, U25, U1> as $crate::runner::UnitFn),
        ("7x31x31", $f::<U7, U31, U31> as $crate::runner::UnitFn),
        ("8x1x13", $f::<U8, U1, U13> as $crate::runner::UnitFn),
        ("8x3x0", $f::<U8, U3, U0> as $crate::runner::UnitFn),
        ("8x3x26", $f::<U8, U3, U26> as $crate::runner::UnitFn),
        ("8x4x3", $f::<U8, U4, U3> as $crate::runner::UnitFn),
        ("8x5x18", $f::<U8, U5, U18> as $crate::runner::UnitFn),
        ("8x7x8", $f::<U8, U7, U8> as $crate::runner::UnitFn),
        ("8x8x2", $f::<U8, U8, U2> as $crate::runner::UnitFn),
        ("8x8x8", $f::<U8, U8, U8> as $crate::runner::UnitFn),
        ("8x11x3", $f::<U8, U11, U3> as $crate::runner::UnitFn),
        ("8x16x5", $f::<U8, U16, U5> as $crate::runner::UnitFn),
        ("8x22x8", $f::<U8, U22, U8> as $crate::runner::UnitFn),
        ("8x26x5", $f::<U8, U26, U5> as $crate::runner::UnitFn),
        ("8x27x31", $f::<U8, U27, U31> as $crate::runner::UnitFn),
        ("8x30x4", $f::<U8, U30, U4> as $crate::runner::UnitFn),
        ("8x31x7", $f::<U8, U31, U7> as $crate::runner::UnitFn),
        ("8x31x16", $f::<U8, U31, U16> as $crate::runner::UnitFn),
        ("9x8x32", $f::<U9, U8, U32> as $crate::runner::UnitFn),
        ("9x9x9", $f::<U9, U9, U9> as $crate::runner::UnitFn),
        ("9x32x1", $f::<U9, U32, U1> as $crate::runner::UnitFn),
        ("10x5x5", $f::<U10, U5, U5> as $crate::runner::UnitFn),
        ("10x5x7", $f::<U10, U5, U7> as $crate::runner::UnitFn),
        ("10x10x10", $f::<U10, U10, U10> as $crate::runner::UnitFn),
        ("11x2x16", $f::<U11, U2, U16> as $crate::runner::UnitFn),
        ("11x11x11", $f::<U11, U11, U11> as $crate::runner::UnitFn),
        ("11x32x3", $f::<U11, U32, U3> as $crate::runner::UnitFn),
        ("12x0x32", $f::<U12, U0, U32> as $crate::runner::UnitFn),
        ("12x1x8", $f::<U12, U1, U8> as $crate::runner::UnitFn),
        ("12x12x12", $f::<U12, U12, U12> as $crate::runner::UnitFn),
        ("13x8x17", $f::<U13, U8, U17> as $crate::runner::UnitFn),
        ("13x13x13", $f::<U13, U13, U13> as $crate::runner::UnitFn),
        ("13x31x32", $f::<U13, U31, U32> as $crate::runner::UnitFn),
        ("13x32x32", $f::<U13, U32, U32> as $crate::runner::UnitFn),
        ("14x8x0", $f::<U14, U8, U0> as $crate::runner::UnitFn),
        ("14x14x14", $f::<U14, U14, U14> as $crate::runner::UnitFn),
        ("15x7x5", $f::<U15, U7, U5> as $crate::runner::UnitFn),
        ("15x8x2", $f::<U15, U8, U2> as $crate::runner::UnitFn),
        ("15x8x7", $f::<U15, U8, U7> as $crate::runner::UnitFn),
        ("15x15x15", $f::<U15, U15, U15> as $crate::runner::UnitFn),
        ("15x17x7", $f::<U15, U17, U7> as $crate::runner::UnitFn),
        ("15x31x4", $f::<U15, U31, U4> as $crate::runner::UnitFn),
        ("16x1x2", $f::<U16, U1, U2> as $crate::runner::UnitFn),
        ("16x2x1", $f::<U16, U2, U1> as $crate::runner::UnitFn),
        ("16x3x22", $f::<U16, U3, U22> as $crate::runner::UnitFn),
        ("16x4x8", $f::<U16, U4, U8> as $crate::runner::UnitFn),
        ("16x7x4", $f::<U16, U7, U4> as $crate::runner::UnitFn),
        ("16x8x7", $f::<U16, U8, U7> as $crate::runner::UnitFn),
        ("16x8x19", $f::<U16, U8, U19> as $crate::runner::UnitFn),
        ("16x10x2", $f::<U16, U10, U2> as $crate::runner::UnitFn),
        ("16x16x2", $f::<U16, U16, U2> as $crate::runner::UnitFn),
        ("16x16x4", $f::<U16, U16, U4> as $crate::runner::UnitFn),
        ("16x16x16", $f::<U16, U16, U16> as $crate::runner::UnitFn),
        ("16x17x23", $f::<U16, U17, U23> as $crate::runner::UnitFn),
        ("16x17x32", $f::<U16, U17, U32> as $crate::runner::UnitFn),
        ("16x19x3", $f::<U16, U19, U3> as $crate::runner::UnitFn),
        ("16x23x4", $f::<U16, U23, U4> as $crate::runner::UnitFn),
        ("16x32x0", $f::<U16, U32, U0> as $crate::runner::UnitFn),
        ("16x32x5", $f::<U16, U32, U5> as $crate::runner::UnitFn),
        ("17x3x2", $f::<U17, U3, U2> as $crate::runner::UnitFn),
        ("17x4x30", $f::<U17, U4, U30> as $crate::runner::UnitFn),
        ("17x7x2", $f::<U17, U7, U2> as $crate::runner::UnitFn),
        ("17x8x1", $f::<U17, U8, U1> as $crate::runner::UnitFn),
        ("17x14x7", $f::<U17, U14, U7> as $crate::runner::UnitFn),
        ("17x17x0", $f::<U17, U17, U0> as $crate::runner::UnitFn),
        ("17x17x4", $f::<U17, U17, U4> as $crate::runner::UnitFn),
        ("17x17x17", $f::<U17, U17, U17> as $crate::runner::UnitFn),
        ("17x23x31", $f::<U17, U23, U31> as $crate::runner::UnitFn),
        ("17x27x0", $f::<U17, U27, U0> as $crate::runner::UnitFn),
        ("17x31x1", $f::<U17, U31, U1> as $crate::runner::UnitFn),
        ("17x32x0", $f::<U17, U32, U0> as $crate::runner::UnitFn),
        ("18x7x1", $f::<U18, U7, U1> as $crate::runner::UnitFn),
        ("18x7x4", $f::<U18, U7, U4> as $crate::runner::UnitFn),
        ("18x18x18", $f::<U18, U18, U18> as $crate::runner::UnitFn),
        ("19x19x19", $f::<U19, U19, U19> as $crate::runner::UnitFn),
        ("20x7x17", $f::<U20, U7, U17> as $crate::runner::UnitFn),
        ("20x7x32", $f::<U20, U7, U32> as $crate::runner::UnitFn),
        ("20x20x20", $f::<U20, U20, U20> as $crate::runner::UnitFn),
        ("20x32x2", $f::<U20, U32, U2> as $crate::runner::UnitFn),
        ("20x32x7", $f::<U20, U32, U7> as $crate::runner::UnitFn),
        ("21x2x3", $f::<U21, U2, U3> as $crate::runner::UnitFn),
        ("21x2x17", $f::<U21, U2, U17> as $crate::runner::UnitFn),
        ("21x4x16", $f::<U21, U4, U16> as $crate::runner::UnitFn),
        ("21x21x21", $f::<U21, U21, U21> as $crate::runner::UnitFn),
        ("21x31x8", $f::<U21, U31, U8> as $crate::runner::UnitFn),
        ("22x0x5", $f::<U22, U0, U5> as $crate::runner::UnitFn),
        ("22x2x32", $f::<U22, U2, U32> as $crate::runner::UnitFn),
        ("22x22x22", $f::<U22, U22, U22> as $crate::runner::UnitFn),
        ("23x0x7", $f::<U23, U0, U7> as $crate::runner::UnitFn),
        ("23x0x31", $f::<U23, U0, U31> as $crate::runner::UnitFn),
        ("23x23x23", $f::<U23, U23, U23> as $crate::runner::UnitFn),
        ("23x32x4", $f::<U23, U32, U4> as $crate::runner::UnitFn),
        ("24x7x16", $f::<U24, U7, U16> as $crate::runner::UnitFn),
        ("24x24x24", $f::<U24, U24, U24> as $crate::runner::UnitFn),
        ("25x3x5", $f::<U25, U3, U5> as $crate::runner::UnitFn),
        ("25x4x3", $f::<U25, U4, U3> as $crate::runner::UnitFn),
        ("25x5x32", $f::<U25, U5, U32> as $crate::runner::UnitFn),
        ("25x25x25", $f::<U25, U25, U25> as $crate::runner::UnitFn),
        ("26x8x16", $f::<U26, U8, U16> as $crate::runner::UnitFn),
        ("26x16x1", $f::<U26, U16, U1> as $crate::runner::UnitFn),
        ("26x26x26", $f::<U26, U26, U26> as $crate::runner::UnitFn),
        ("27x27x27", $f::<U27, U27, U27> as $crate::runner::UnitFn),
        ("28x16x0", $f::<U28, U16, U0> as $crate::runner::UnitFn),
        ("28x28x28", $f::<U28, U28, U28> as $crate::runner::UnitFn),
        ("29x0x2", $f::<U29, U0, U2> as $crate::runner::UnitFn),
        ("29x0x4", $f::<U29, U0, U4> as $crate::runner::UnitFn),
        ("29x0x17", $f::<U29, U0, U17> as $crate::runner::UnitFn),
        ("29x29x29", $f::<U29, U29, U29> as $crate::runner::UnitFn),
        ("30x8x1", $f::<U30, U8, U1> as $crate::runner::UnitFn),
        ("30x30x30", $f::<U30, U30, U30> as $crate::runner::UnitFn),
        ("30x31x7", $f::<U30, U31, U7> as $crate::runner::UnitFn),
        ("31x1x7", $f::<U31, U1, U7> as $crate::runner::UnitFn),
        ("31x2x31", $f::<U31, U2, U31> as $crate::runner::UnitFn),
        ("31x3x16", $f::<U31, U3, U16> as $crate::runner::UnitFn),
        ("31x5x29", $f::<U31, U5, U29> as $crate::runner::UnitFn),
        ("31x5x31", $f::<U31, U5, U31> as $crate::runner::UnitFn),
        ("31x6x5", $f::<U31, U6, U5> as $crate::runner::UnitFn),
        ("31x7x5", $f::<U31, U7, U5> as $crate::runner::UnitFn),
        ("31x7x7", $f::<U31, U7, U7> as $crate::runner::UnitFn),
        ("31x13x2", $f::<U31, U13, U2> as $crate::runner::UnitFn),
        ("31x16x4", $f::<U31, U16, U4> as $crate::runner::UnitFn),
        ("31x17x5", $f::<U31, U17, U5> as $crate::runner::UnitFn),
        ("31x21x0", $f::<U31, U21, U0> as $crate::runner::UnitFn),
        ("31x23x32", $f::<U31, U23, U32> as $crate::runner::UnitFn),
        ("31x27x8", $f::<U31, U27, U8> as $crate::runner::UnitFn),
        ("31x31x14", $f::<U31, U31, U14> as $crate::runner::UnitFn),
        ("31x31x31", $f::<U31, U31, U31> as $crate::runner::UnitFn),
        ("31x32x16", $f::<U31, U32, U16> as $crate::runner::UnitFn),
        ("32x0x31", $f::<U32, U0, U31> as $crate::runner::UnitFn),
        ("32x1x0", $f::<U32, U1, U0> as $crate::runner::UnitFn),
        ("32x2x7", $f::<U32, U2, U7> as $crate::runner::UnitFn),
        ("32x2x9", $f::<U32, U2, U9> as $crate::runner::UnitFn),
        ("32x4x10", $f::<U32, U4, U10> as $crate::runner::UnitFn),
        ("32x5x5", $f::<U32, U5, U5> as $crate::runner::UnitFn),
        ("32x7x28", $f::<U32, U7, U28> as $crate::runner::UnitFn),
        ("32x8x15", $f::<U32, U8, U15> as $crate::runner::UnitFn),
        ("32x12x16", $f::<U32, U12, U16> as $crate::runner::UnitFn),
        ("32x12x17", $f::<U32, U12, U17> as $crate::runner::UnitFn),
        ("32x16x16", $f::<U32, U16, U16> as $crate::runner::UnitFn),
        ("32x16x31", $f::<U32, U16, U31> as $crate::runner::UnitFn),
        ("32x17x27", $f::<U32, U17, U27> as $crate::runner::UnitFn),
        ("32x22x2", $f::<U32, U22, U2> as $crate::runner::UnitFn),
        ("32x31x8", $f::<U32, U31, U8> as $crate::runner::UnitFn),
        ("32x32x32", $f::<U32, U32, U32> as $crate::runner::UnitFn),
    ] };
    ($f:ident, $e:ty) => { &[
        ("0x0x0", $f::<$e, U0, U0, U0> as $crate::runner::UnitFn),
        ("0x0x1", $f::<$e, U0, U0, U1> as $crate::runner::UnitFn),
        ("0x0x2", $f::<$e, U0, U0, U2> as $crate::runner::UnitFn),
        ("0x0x3", $f::<$e, U0, U0, U3> as $crate::runner::UnitFn),
        ("0x0x29", $f::<$e, U0, U0, U29> as $crate::runner::UnitFn),
        ("0x1x0", $f::<$e, U0, U1, U0> as $crate::runner::UnitFn),
        ("0x1x1", $f::<$e, U0, U1, U1> as $crate::runner::UnitFn),
        ("0x1x2", $f::<$e, U0, U1, U2> as $crate::runner::UnitFn),
        ("0x1x3", $f::<$e, U0, U1, U3> as $crate::runner::UnitFn),
        ("0x1x12", $f::<$e, U0, U1, U12> as $crate::runner::UnitFn),
        ("0x2x0", $f::<$e, U0, U2, U0> as $crate::runner::UnitFn),
        ("0x2x1", $f::<$e, U0, U2, U1> as $crate::runner::UnitFn),
        ("0x2x2", $f::<$e, U0, U2, U2> as $crate::runner::UnitFn),
        ("0x2x3", $f::<$e, U0, U2, U3> as $crate::runner::UnitFn),
        ("0x2x32", $f::<$e, U0, U2, U32> as $crate::runner::UnitFn),
        ("0x3x0", $f::<$e, U0, U3, U0> as $crate::runner::UnitFn),
        ("0x3x1", $f::<$e, U0, U3, U1> as $crate::runner::UnitFn),
        ("0x3x2", $f::<$e, U0, U3, U2> as $crate::runner::UnitFn),
        ("0x3x3", $f::<$e, U0, U3, U3> as $crate::runner::UnitFn),
        ("0x3x11", $f::<$e, U0, U3, U11> as $crate::runner::UnitFn),
        ("0x4x19", $f::<$e, U0, U4, U19> as $crate::runner::UnitFn),
        ("0x5x2", $f::<$e, U0, U5, U2> as $crate::runner::UnitFn),
        ("0x8x28", $f::<$e, U0, U8, U28> as $crate::runner::UnitFn),
        ("0x9x2", $f::<$e, U0, U9, U2> as $crate::runner::UnitFn),
        ("0x11x7", $f::<$e, U0, U11, U7> as $crate::runner::UnitFn),
        ("0x14x0", $f::<$e, U0, U14, U0> as $crate::runner::UnitFn),
        ("0x14x16", $f::<$e, U0, U14, U16> as $crate::runner::UnitFn),
        ("0x21x1", $f::<$e, U0, U21, U1> as $crate::runner::UnitFn),
        ("0x31x0", $f::<$e, U0, U31, U0> as $crate::runner::UnitFn),
        ("0x31x8", $f::<$e, U0, U31, U8> as $crate::runner::UnitFn),
        ("0x32x31", $f::<$e, U0, U32, U31> as $crate::runner::UnitFn),
        ("1x0x0", $f::<$e, U1, U0, U0> as $crate::runner::UnitFn),
        ("1x0x1", $f::<$e, U1, U0, U1> as $crate::runner::UnitFn),
        ("1x0x2", $f::<$e, U1, U0, U2> as $crate::runner::UnitFn),
        ("1x0x3", $f::<$e, U1, U0, U3> as $crate::runner::UnitFn),
        ("1x1x0", $f::<$e, U1, U1, U0> as $crate::runner::UnitFn),
        ("1x1x1", $f::<$e, U1, U1, U1> as $crate::runner::UnitFn),
        ("1x1x2", $f::<$e, U1, U1, U2> as $crate::runner::UnitFn),
        ("1x1x3", $f::<$e, U1, U1, U3> as $crate::runner::UnitFn),
        ("1x1x15", $f::<$e, U1, U1, U15> as $crate::runner::UnitFn),
        ("1x2x0", $f::<$e, U1, U2, U0> as $crate::runner::UnitFn),
        ("1x2x1", $f::<$e, U1, U2, U1> as $crate::runner::UnitFn),
        ("1x2x2", $f::<$e, U1, U2, U2> as $crate::runner::UnitFn),
        ("1x2x3", $f::<$e, U1, U2, U3> as $crate::runner::UnitFn),
        ("1x2x8", $f::<$e, U1, U2, U8> as $crate::runner::UnitFn),
        ("1x3x0", $f::<$e, U1, U3, U0> as $crate::runner::UnitFn),
        ("1x3x1", $f::<$e, U1, U3, U1> as $crate::runner::UnitFn),
        ("1x3x2", $f::<$e, U1, U3, U2> as $crate::runner::UnitFn),
        ("1x3x3", $f::<$e, U1, U3, U3> as $crate::runner::UnitFn),
        ("1x3x4", $f::<$e, U1, U3, U4> as $crate::runner::UnitFn),
        ("1x4x12", $f::<$e, U1, U4, U12> as $crate::runner::UnitFn),
        ("1x8x5", $f::<$e, U1, U8, U5> as $crate::runner::UnitFn),
        ("1x10x32", $f::<$e, U1, U10, U32> as $crate::runner::UnitFn),
        ("1x13x17", $f::<$e, U1, U13, U17> as $crate::runner::UnitFn),
        ("1x16x17", $f::<$e, U1, U16, U17> as $crate::runner::UnitFn),
        ("1x17x5", $f::<$e, U1, U17, U5> as $crate::runner::UnitFn),
        ("1x18x31", $f::<$e, U1, U18, U31> as $crate::runner::UnitFn),
        ("1x23x7", $f::<$e, U1, U23, U7> as $crate::runner::UnitFn),
        ("1x32x14", $f::<$e, U1, U32, U14> as $crate::runner::UnitFn),
        ("2x0x0", $f::<$e, U2, U0, U0> as $crate::runner::UnitFn),
        ("2x0x1", $f::<$e, U2, U0, U1> as $crate::runner::UnitFn),
        ("2x0x2", $f::<$e, U2, U0, U2> as $crate::runner::UnitFn),
        ("2x0x3", $f::<$e, U2, U0, U3> as $crate::runner::UnitFn),
        ("2x0x8", $f::<$e, U2, U0, U8> as $crate::runner::UnitFn),
        ("2x1x0", $f::<$e, U2, U1, U0> as $crate::runner::UnitFn),
        ("2x1x1", $f::<$e, U2, U1, U1> as $crate::runner::UnitFn),
        ("2x1x2", $f::<$e, U2, U1, U2> as $crate::runner::UnitFn),
        ("2x1x3", $f::<$e, U2, U1, U3> as $crate::runner::UnitFn),
        ("2x1x6", $f::<$e, U2, U1, U6> as $crate::runner::UnitFn),
        ("2x1x17", $f::<$e, U2, U1, U17> as $crate::runner::UnitFn),
        ("2x2x0", $f::<$e, U2, U2, U0> as $crate::runner::UnitFn),
        ("2x2x1", $f::<$e, U2, U2, U1> as $crate::runner::UnitFn),
        ("2x2x2", $f::<$e, U2, U2, U2> as $crate::runner::UnitFn),
        ("2x2x3", $f::<$e, U2, U2, U3> as $crate::runner::UnitFn),
        ("2x2x18", $f::<$e, U2, U2, U18> as $crate::runner::UnitFn),
        ("2x3x0", $f::<$e, U2, U3, U0> as $crate::runner::UnitFn),
        ("2x3x1", $f::<$e, U2, U3, U1> as $crate::runner::UnitFn),
        ("2x3x2", $f::<$e, U2, U3, U2> as $crate::runner::UnitFn),
        ("2x3x3", $f::<$e, U2, U3, U3> as $crate::runner::UnitFn),
        ("2x5x4", $f::<$e, U2, U5, U4> as $crate::runner::UnitFn),
        ("2x5x13", $f::<$e, U2, U5, U13> as $crate::runner::UnitFn),
        ("2x7x2", $f::<$e, U2, U7, U2> as $crate::runner::UnitFn),
        ("2x8x24", $f::<$e, U2, U8, U24> as $crate::runner::UnitFn),
        ("2x17x4", $f::<$e, U2, U17, U4> as $crate::runner::UnitFn),
        ("2x17x17", $f::<$e, U2, U17, U17> as $crate::runner::UnitFn),
        ("2x31x0", $f::<$e, U2, U31, U0> as $crate::runner::UnitFn),
        ("2x31x16", $f::<$e, U2, U31, U16> as $crate::runner::UnitFn),
        ("2x32x17", $f::<$e, U2, U32, U17> as $crate::runner::UnitFn),
        ("3x0x0", $f::<$e, U3, U0, U0> as $crate::runner::UnitFn),
        ("3x0x1", $f::<$e, U3, U0, U1> as $crate::runner::UnitFn),
        ("3x0x2", $f::<$e, U3, U0, U2> as $crate::runner::UnitFn),
        ("3x0x3", $f::<$e, U3, U0, U3> as $crate::runner::UnitFn),
        ("3x0x19", $f::<$e, U3, U0, U19> as $crate::runner::UnitFn),
        ("3x1x0", $f::<$e, U3, U1, U0> as $crate::runner::UnitFn),
        ("3x1x1", $f::<$e, U3, U1, U1> as $crate::runner::UnitFn),
        ("3x1x2", $f::<$e, U3, U1, U2> as $crate::runner::UnitFn),
        ("3x1x3", $f::<$e, U3, U1, U3> as $crate::runner::UnitFn),
        ("3x1x17", $f::<$e, U3, U1, U17> as $crate::runner::UnitFn),
        ("3x1x26", $f::<$e, U3, U1, U26> as $crate::runner::UnitFn),
        ("3x2x0", $f::<$e, U3, U2, U0> as $crate::runner::UnitFn),
        ("3x2x1", $f::<$e, U3, U2, U1> as $crate::runner::UnitFn),
        ("3x2x2", $f::<$e, U3, U2, U2> as $crate::runner::UnitFn),
        ("3x2x3", $f::<$e, U3, U2, U3> as $crate::runner::UnitFn),
        ("3x3x0", $f::<$e, U3, U3, U0> as $crate::runner::UnitFn),
        ("3x3x1", $f::<$e, U3, U3, U1> as $crate::runner::UnitFn),
        ("3x3x2", $f::<$e, U3, U3, U2> as $crate::runner::UnitFn),
        ("3x3x3", $f::<$e, U3, U3, U3> as $crate::runner::UnitFn),
        ("3x3x15", $f::<$e, U3, U3, U15> as $crate::runner::UnitFn),
        ("3x5x29", $f::<$e, U3, U5, U29> as $crate::runner::UnitFn),
        ("3x8x12", $f::<$e, U3, U8, U12> as $crate::runner::UnitFn),
        ("3x14x32", $f::<$e, U3, U14, U32> as $crate::runner::UnitFn),
        ("3x15x0", $f::<$e, U3, U15, U0> as $crate::runner::UnitFn),
        ("3x15x7", $f::<$e, U3, U15, U7> as $crate::runner::UnitFn),
        ("3x16x12", $f::<$e, U3, U16, U12> as $crate::runner::UnitFn),
        ("3x22x31", $f::<$e, U3, U22, U31> as $crate::runner::UnitFn),
        ("3x23x1", $f::<$e, U3, U23, U1> as $crate::runner::UnitFn),
        ("3x25x8", $f::<$e, U3, U25, U8> as $crate::runner::UnitFn),
        ("3x30x16", $f::<$e, U3, U30, U16> as $crate::runner::UnitFn),
        ("3x32x24", $f::<$e, U3, U32, U24> as $crate::runner::UnitFn),
        ("4x0x26", $f::<$e, U4, U0, U26> as $crate::runner::UnitFn),
        ("4x2x7", $f::<$e, U4, U2, U7> as $crate::runner::UnitFn),
        ("4x2x19", $f::<$e, U4, U2, U19> as $crate::runner::UnitFn),
        ("4x2x32", $f::<$e, U4, U2, U32> as $crate::runner::UnitFn),
        ("4x4x4", $f::<$e, U4, U4, U4> as $crate::runner::UnitFn),
        ("4x4x11", $f::<$e, U4, U4, U11> as $crate::runner::UnitFn),
        ("4x5x6", $f::<$e, U4, U5, U6> as $crate::runner::UnitFn),
        ("4x6x8", $f::<$e, U4, U6, U8> as $crate::runner::UnitFn),
        ("4x7x9", $f::<$e, U4, U7, U9> as $crate::runner::UnitFn),
        ("4x8x0", $f::<$e, U4, U8, U0> as $crate::runner::UnitFn),
        ("4x8x16", $f::<$e, U4, U8, U16> as $crate::runner::UnitFn),
        ("4x16x21", $f::<$e, U4, U16, U21> as $crate::runner::UnitFn),
        ("4x22x16", $f::<$e, U4, U22, U16> as $crate::runner::UnitFn),
        ("4x25x1", $f::<$e, U4, U25, U1> as $crate::runner::UnitFn),
        ("4x31x4", $f::<$e, U4, U31, U4> as $crate::runner::UnitFn),
        ("4x32x15", $f::<$e, U4, U32, U15> as $crate::runner::UnitFn),
        ("5x0x23", $f::<$e, U5, U0, U23> as $crate::runner::UnitFn),
        ("5x1x2", $f::<$e, U5, U1, U2> as $crate::runner::UnitFn),
        ("5x1x29", $f::<$e, U5, U1, U29> as $crate::runner::UnitFn),
        ("5x2x30", $f::<$e, U5, U2, U30> as $crate::runner::UnitFn),
        ("5x3x1", $f::<$e, U5, U3, U1> as $crate::runner::UnitFn),
        ("5x4x24", $f::<$e, U5, U4, U24> as $crate::runner::UnitFn),
        ("5x5x0", $f::<$e, U5, U5, U0> as $crate::runner::UnitFn),
        ("5x5x5", $f::<$e, U5, U5, U5> as $crate::runner::UnitFn),
        ("5x5x9", $f::<$e, U5, U5, U9> as $crate::runner::UnitFn),
        ("5x6x8", $f::<$e, U5, U6, U8> as $crate::runner::UnitFn),
        ("5x7x14", $f::<$e, U5, U7, U14> as $crate::runner::UnitFn),
        ("5x16x12", $f::<$e, U5, U16, U12> as $crate::runner::UnitFn),
        ("5x17x12", $f::<$e, U5, U17, U12> as $crate::runner::UnitFn),
        ("5x19x17", $f::<$e, U5, U19, U17> as $crate::runner::UnitFn),
        ("5x22x2", $f::<$e, U5, U22, U2> as $crate::runner::UnitFn),
        ("5x29x5", $f::<$e, U5, U29, U5> as $crate::runner::UnitFn),
        ("5x31x2", $f::<$e, U5, U31, U2> as $crate::runner::UnitFn),
        ("5x32x8", $f::<$e, U5, U32, U8> as $crate::runner::UnitFn),
        ("5x32x30", $f::<$e, U5, U32, U30> as $crate::runner::UnitFn),
        ("6x0x3", $f::<$e, U6, U0, U3> as $crate::runner::UnitFn),
        ("6x2x31", $f::<$e, U6, U2, U31> as $crate::runner::UnitFn),
        ("6x4x1", $f::<$e, U6, U4, U1> as $crate::runner::UnitFn),
        ("6x6x6", $f::<$e, U6, U6, U6> as $crate::runner::UnitFn),
        ("6x8x3", $f::<$e, U6, U8, U3> as $crate::runner::UnitFn),
        ("7x1x6", $f::<$e, U7, U1, U6> as $crate::runner::UnitFn),
        ("7x1x32", $f::<$e, U7, U1, U32> as $crate::runner::UnitFn),
        ("7x2x32", $f::<$e, U7, U2, U32> as $crate::runner::UnitFn),
        ("7x4x25", $f::<$e, U7, U4, U25> as $crate::runner::UnitFn),
        ("7x5x31", $f::<$e, U7, U5, U31> as $crate::runner::UnitFn),
        ("7x7x7", $f::<$e, U7, U7, U7> as $crate::runner::UnitFn),
        ("7x7x11", $f::<$e, U7, U7, U11> as $crate::runner::UnitFn),
        ("7x8x17", $f::<$e, U7, U8, U17> as $crate::runner::UnitFn),
        ("7x10x5", $f::<$e, U7, U10, U5> as $crate::runner::UnitFn),
        ("7x16x16", $f::<$e, U7, U16, U16> as $crate::runner::UnitFn),
        ("7x17x0", $f::<$e, U7, U17, U0> as $crate::runner::UnitFn),
        ("7x17x30", $f::<$e, U7, U17, U30> as $crate::runner::UnitFn),
        ("7x25x1", $f::<$e, U7, U25, U1> as $crate::runner::UnitFn),
        ("7x31x31", $f::<$e, U7, U31, U31> as $crate::runner::UnitFn),
        ("8x1x13", $f::<$e, U8, U1, U13> as $crate::runner::UnitFn),
        ("8x3x0", $f::<$e, U8, U3, U0> as $crate::runner::UnitFn),
        ("8x3x26", $f::<$e, U8, U3, U26> as $crate::runner::UnitFn),
        ("8x4x3", $f::<$e, U8, U4, U3> as $crate::runner::UnitFn),
        ("8x5x18", $f::<$e, U8, U5, U18> as $crate::runner::UnitFn),
        ("8x7x8", $f::<$e, U8, U7, U8> as $crate::runner::UnitFn),
        ("8x8x2", $f::<$e, U8, U8, U2> as $crate::runner::UnitFn),
        ("8x8x8", $f::<$e, U8, U8, U8> as $crate::runner::UnitFn),
        ("8x11x3", $f::<$e, U8, U11, U3> as $crate::runner::UnitFn),
        ("8x16x5", $f::<$e, U8, U16, U5> as $crate::runner::UnitFn),
        ("8x22x8", $f::<$e, U8, U22, U8> as $crate::runner::UnitFn),
        ("8x26x5", $f::<$e, U8, U26, U5> as $crate::runner::UnitFn),
        ("8x27x31", $f::<$e, U8, U27, U31> as $crate::runner::UnitFn),
        ("8x30x4", $f::<$e, U8, U30, U4> as $crate::runner::UnitFn),
        ("8x31x7", $f::<$e, U8, U31, U7> as $crate::runner::UnitFn),
        ("8x31x16", $f::<$e, U8, U31, U16> as $crate::runner::UnitFn),
        ("9x8x32", $f::<$e, U9, U8, U32> as $crate::runner::UnitFn),
        ("9x9x9", $f::<$e, U9, U9, U9> as $crate::runner::UnitFn),
        ("9x32x1", $f::<$e, U9, U32, U1> as $crate::runner::UnitFn),
        ("10x5x5", $f::<$e, U10, U5, U5> as $crate::runner::UnitFn),
        ("10x5x7", $f::<$e, U10, U5, U7> as $crate::runner::UnitFn),
        ("10x10x10", $f::<$e, U10, U10, U10> as $crate::runner::UnitFn),
        ("11x2x16", $f::<$e, U11, U2, U16> as $crate::runner::UnitFn),
        ("11x11x11", $f::<$e, U11, U11, U11> as $crate::runner::UnitFn),
        ("11x32x3", $f::<$e, U11, U32, U3> as $crate::runner::UnitFn),
        ("12x0x32", $f::<$e, U12, U0, U32> as $crate::runner::UnitFn),
        ("12x1x8", $f::<$e, U12, U1, U8> as $crate::runner::UnitFn),
        ("12x12x12", $f::<$e, U12, U12, U12> as $crate::runner::UnitFn),
        ("13x8x17", $f::<$e, U13, U8, U17> as $crate::runner::UnitFn),
        ("13x13x13", $f::<$e, U13, U13, U13> as $crate::runner::UnitFn),
        ("13x31x32", $f::<$e, U13, U31, U32> as $crate::runner::UnitFn),
        ("13x32x32", $f::<$e, U13, U32, U32> as $crate::runner::UnitFn),
        ("14x8x0", $f::<$e, U14, U8, U0> as $crate::runner::UnitFn),
        ("14x14x14", $f::<$e, U14, U14, U14> as $crate::runner::UnitFn),
        ("15x7x5", $f::<$e, U15, U7, U5> as $crate::runner::UnitFn),
        ("15x8x2", $f::<$e, U15, U8, U2> as $crate::runner::UnitFn),
        ("15x8x7", $f::<$e, U15, U8, U7> as $crate::runner::UnitFn),
        ("15x15x15", $f::<$e, U15, U15, U15> as $crate::runner::UnitFn),
        ("15x17x7", $f::<$e, U15, U17, U7> as $crate::runner::UnitFn),
        ("15x31x4", $f::<$e, U15, U31, U4> as $crate::runner::UnitFn),
        ("16x1x2", $f::<$e, U16, U1, U2> as $crate::runner::UnitFn),
        ("16x2x1", $f::<$e, U16, U2, U1> as $crate::runner::UnitFn),
        ("16x3x22", $f::<$e, U16, U3, U22> as $crate::runner::UnitFn),
        ("16x4x8", $f::<$e, U16, U4, U8> as $crate::runner::UnitFn),
        ("16x7x4", $f::<$e, U16, U7, U4> as $crate::runner::UnitFn),
        ("16x8x7", $f::<$e, U16, U8, U7> as $crate::runner::UnitFn),
        ("16x8x19", $f::<$e, U16, U8, U19> as $crate::runner::UnitFn),
        ("16x10x2", $f::<$e, U16, U10, U2> as $crate::runner::UnitFn),
        ("16x16x2", $f::<$e, U16, U16, U2> as $crate::runner::UnitFn),
        ("16x16x4", $f::<$e, U16, U16, U4> as $crate::runner::UnitFn),
        ("16x16x16", $f::<$e, U16, U16, U16> as $crate::runner::UnitFn),
        ("16x17x23", $f::<$e, U16, U17, U23> as $crate::runner::UnitFn),
        ("16x17x32", $f::<$e, U16, U17, U32> as $crate::runner::UnitFn),
        ("16x19x3", $f::<$e, U16, U19, U3> as $crate::runner::UnitFn),
        ("16x23x4", $f::<$e, U16, U23, U4> as $crate::runner::UnitFn),
        ("16x32x0", $f::<$e, U16, U32, U0> as $crate::runner::UnitFn),
        ("16x32x5", $f::<$e, U16, U32, U5> as $crate::runner::UnitFn),
        ("17x3x2", $f::<$e, U17, U3, U2> as $crate::runner::UnitFn),
        ("17x4x30", $f::<$e, U17, U4, U30> as $crate::runner::UnitFn),
        ("17x7x2", $f::<$e, U17, U7, U2> as $crate::runner::UnitFn),
        ("17x8x1", $f::<$e, U17, U8, U1> as $crate::runner::UnitFn),
        ("17x14x7", $f::<$e, U17, U14, U7> as $crate::runner::UnitFn),
        ("17x17x0", $f::<$e, U17, U17, U0> as $crate::runner::UnitFn),
        ("17x17x4", $f::<$e, U17, U17, U4> as $crate::runner::UnitFn),
        ("17x17x17", $f::<$e, U17, U17, U17> as $crate::runner::UnitFn),
        ("17x23x31", $f::<$e, U17, U23, U31> as $crate::runner::UnitFn),
        ("17x27x0", $f::<$e, U17, U27, U0> as $crate::runner::UnitFn),
        ("17x31x1", $f::<$e, U17, U31, U1> as $crate::runner::UnitFn),
        ("17x32x0", $f::<$e, U17, U32, U0> as $crate::runner::UnitFn),
        ("18x7x1", $f::<$e, U18, U7, U1> as $crate::runner::UnitFn),
        ("18x7x4", $f::<$e, U18, U7, U4> as $crate::runner::UnitFn),
        ("18x18x18", $f::<$e, U18, U18, U18> as $crate::runner::UnitFn),
        ("19x19x19", $f::<$e, U19, U19, U19> as $crate::runner::UnitFn),
        ("20x7x17", $f::<$e, U20, U7, U17> as $crate::runner::UnitFn),
        ("20x7x32", $f::<$e, U20, U7, U32> as $crate::runner::UnitFn),
        ("20x20x20", $f::<$e, U20, U20, U20> as $crate::runner::UnitFn),
        ("20x32x2", $f::<$e, U20, U32, U2> as $crate::runner::UnitFn),
        ("20x32x7", $f::<$e, U20, U32, U7> as $crate::runner::UnitFn),
        ("21x2x3", $f::<$e, U21, U2, U3> as $crate::runner::UnitFn),
        ("21x2x17", $f::<$e, U21, U2, U17> as $crate::runner::UnitFn),
        ("21x4x16", $f::<$e, U21, U4, U16> as $crate::runner::UnitFn),
        ("21x21x21", $f::<$e, U21, U21, U21> as $crate::runner::UnitFn),
        ("21x31x8", $f::<$e, U21, U31, U8> as $crate::runner::UnitFn),
        ("22x0x5", $f::<$e, U22, U0, U5> as $crate::runner::UnitFn),
        ("22x2x32", $f::<$e, U22, U2, U32> as $crate::runner::UnitFn),
        ("22x22x22", $f::<$e, U22, U22, U22> as $crate::runner::UnitFn),
        ("23x0x7", $f::<$e, U23, U0, U7> as $crate::runner::UnitFn),
        ("23x0x31", $f::<$e, U23, U0, U31> as $crate::runner::UnitFn),
        ("23x23x23", $f::<$e, U23, U23, U23> as $crate::runner::UnitFn),
        ("23x32x4", $f::<$e, U23, U32, U4> as $crate::runner::UnitFn),
        ("24x7x16", $f::<$e, U24, U7, U16> as $crate::runner::UnitFn),
        ("24x24x24", $f::<$e, U24, U24, U24> as $crate::runner::UnitFn),
        ("25x3x5", $f::<$e, U25, U3, U5> as $crate::runner::UnitFn),
        ("25x4x3", $f::<$e, U25, U4, U3> as $crate::runner::UnitFn),
        ("25x5x32", $f::<$e, U25, U5, U32> as $crate::runner::UnitFn),
        ("25x25x25", $f::<$e, U25, U25, U25> as $crate::runner::UnitFn),
        ("26x8x16", $f::<$e, U26, U8, U16> as $crate::runner::UnitFn),
        ("26x16x1", $f::<$e, U26, U16, U1> as $crate::runner::UnitFn),
        ("26x26x26", $f::<$e, U26, U26, U26> as $crate::runner::UnitFn),
        ("27x27x27", $f::<$e, U27, U27, U27> as $crate::runner::UnitFn),
        ("28x16x0", $f::<$e, U28, U16, U0> as $crate::runner::UnitFn),
        ("28x28x28", $f::<$e, U28, U28, U28> as $crate::runner::UnitFn),
        ("29x0x2", $f::<$e, U29, U0, U2> as $crate::runner::UnitFn),
        ("29x0x4", $f::<$e, U29, U0, U4> as $crate::runner::UnitFn),
        ("29x0x17", $f::<$e, U29, U0, U17> as $crate::runner::UnitFn),
        ("29x29x29", $f::<$e, U29, U29, U29> as $crate::runner::UnitFn),
        ("30x8x1", $f::<$e, U30, U8, U1> as $crate::runner::UnitFn),
        ("30x30x30", $f::<$e, U30, U30, U30> as $crate::runner::UnitFn),
        ("30x31x7", $f::<$e, U30, U31, U7> as $crate::runner::UnitFn),
        ("31x1x7", $f::<$e, U31, U1, U7> as $crate::runner::UnitFn),
        ("31x2x31", $f::<$e, U31, U2, U31> as $crate::runner::UnitFn),
        ("31x3x16", $f::<$e, U31, U3, U16> as $crate::runner::UnitFn),
        ("31x5x29", $f::<$e, U31, U5, U29> as $crate::runner::UnitFn),
        ("31x5x31", $f::<$e, U31, U5, U31> as $crate::runner::UnitFn),
        ("31x6x5", $f::<$e, U31, U6, U5> as $crate::runner::UnitFn),
        ("31x7x5", $f::<$e, U31, U7, U5> as $crate::runner::UnitFn),
        ("31x7x7", $f::<$e, U31, U7, U7> as $crate::runner::UnitFn),
        ("31x13x2", $f::<$e, U31, U13, U2> as $crate::runner::UnitFn),
        ("31x16x4", $f::<$e, U31, U16, U4> as $crate::runner::UnitFn),
        ("31x17x5", $f::<$e, U31, U17, U5> as $crate::runner::UnitFn),
        ("31x21x0", $f::<$e, U31, U21, U0> as $crate::runner::UnitFn),
        ("31x23x32", $f::<$e, U31, U23, U32> as $crate::runner::UnitFn),
        ("31x27x8", $f::<$e, U31, U27, U8> as $crate::runner::UnitFn),
        ("31x31x14", $f::<$e, U31, U31, U14> as $crate::runner::UnitFn),
        ("31x31x31", $f::<$e, U31, U31, U31> as $crate::runner::UnitFn),
        ("31x32x16", $f::<$e, U31, U32, U16> as $crate::runner::UnitFn),
        ("32x0x31", $f::<$e, U32, U0, U31> as $crate::runner::UnitFn),
        ("32x1x0", $f::<$e, U32, U1, U0> as $crate::runner::UnitFn),
        ("32x2x7", $f::<$e, U32, U2, U7> as $crate::runner::UnitFn),
        ("32x2x9", $f::<$e, U32, U2, U9> as $crate::runner::UnitFn),
        ("32x4x10", $f::<$e, U32, U4, U10> as $crate::runner::UnitFn),
        ("32x5x5", $f::<$e, U32, U5, U5> as $crate::runner::UnitFn),
        ("32x7x28", $f::<$e, U32, U7, U28> as $crate::runner::UnitFn),
        ("32x8x15", $f::<$e, U32, U8, U15> as $crate::runner::UnitFn),
        ("32x12x16", $f::<$e, U32, U12, U16> as $crate::runner::UnitFn),
        ("32x12x17", $f::<$e, U32, U12, U17> as $crate::runner::UnitFn),
        ("32x16x16", $f::<$e, U32, U16, U16> as $crate::runner::UnitFn),
        ("32x16x31", $f::<$e, U32, U16, U31> as $crate::runner::UnitFn),
        ("32x17x27", $f::<$e, U32, U17, U27> as $crate::runner::UnitFn),
        ("32x22x2", $f::<$e, U32, U22, U2> as $crate::runner::UnitFn),
        ("32x31x8", $f::<$e, U32, U31, U8> as $crate::runner::UnitFn),
        ("32x32x32", $f::<$e, U32, U32, U32> as $crate::runner::UnitFn),
    ] };
}

/// length and dividing chunk length
#[macro_export]
macro_rules! dims_div {
    ($f:ident) => { &[
        ("0x1", $f::<U0, U1> as $crate::runner::UnitFn),
        ("0x2", $f::<U0, U2> as $crate::runner::UnitFn),
        ("0x3", $f::<U0, U3> as $crate::runner::UnitFn),
        ("0x4", $f::<U0, U4> as $crate::runner::UnitFn),
        ("0x5", $f::<U0, U5> as $crate::runner::UnitFn),
        ("0x6", $f::<U0, U6> as $crate::runner::UnitFn),
        ("0x7", $f::<U0, U7> as $crate::runner::UnitFn),
        ("0x8", $f::<U0, U8> as $crate::runner::UnitFn),
        ("0x9", $f::<U0, U9> as $crate::runner::UnitFn),
        ("0x10", $f::<U0, U10> as $crate::runner::UnitFn),
        ("0x11", $f::<U0, U11> as $crate::runner::UnitFn),
        ("0x12", $f::<U0, U12> as $crate::runner::UnitFn),
        ("0x13", $f::<U0, U13> as $crate::runner::UnitFn),
        ("0x14", $f::<U0, U14> as $crate::runner::UnitFn),
        ("0x15", $f::<U0, U15> as $crate::runner::UnitFn),
        ("0x16", $f::<U0, U16> as $crate::runner::UnitFn),
        ("0x17", $f::<U0, U17> as $crate::runner::UnitFn),
        ("0x18", $f::<U0, U18> as $crate::runner::UnitFn),
        ("0x19", $f::<U0, U19> as $crate::runner::UnitFn),
        ("0x20", $f::<U0, U20> as $crate::runner::UnitFn),
        ("0x21", $f::<U0, U21> as $crate::runner::UnitFn),
        ("0x22", $f::<U0, U22> as $crate::runner::UnitFn),
        ("0x23", $f::<U0, U23> as $crate::runner::UnitFn),
        ("0x24", $f::<U0, U24> as $crate::runner::UnitFn),
        ("0x25", $f::<U0, U25> as $crate::runner::UnitFn),
        ("0x26", $f::<U0, U26> as $crate::runner::UnitFn),
        ("0x27", $f::<U0, U27> as $crate::runner::UnitFn),
        ("0x28", $f::<U0, U28> as $crate::runner::UnitFn),
        ("0x29", $f::<U0, U29> as $crate::runner::UnitFn),
        ("0x30", $f::<U0, U30> as $crate::runner::UnitFn),
        ("0x31", $f::<U0, U31> as $crate::runner::UnitFn),
        ("0x32", $f::<U0, U32> as $crate::runner::UnitFn),
        ("1x1", $f::<U1, U1> as $crate::runner::UnitFn),
        ("2x1", $f::<U2, U1> as $crate::runner::UnitFn),
        ("2x2", $f::<U2, U2> as $crate::runner::UnitFn),
        ("3x1", $f::<U3, U1> as $crate::runner::UnitFn),
        ("3x3", $f::<U3, U3> as $crate::runner::UnitFn),
        ("4x1", $f::<U4, U1> as $crate::runner::UnitFn),
        ("4x2", $f::<U4, U2> as $crate::runner::UnitFn),
        ("4x4", $f::<U4, U4> as $crate::runner::UnitFn),
        ("5x1", $f::<U5, U1> as $crate::runner::UnitFn),
        ("5x5", $f::<U5, U5> as $crate::runner::UnitFn),
        ("6x1", $f::<U6, U1> as $crate::runner::UnitFn),
        ("6x2", $f::<U6, U2> as $crate::runner::UnitFn),
        ("6x3", $f::<U6, U3> as $crate::runner::UnitFn),
        ("6x6", $f::<U6, U6> as $crate::runner::UnitFn),
        ("7x1", $f::<U7, U1> as $crate::runner::UnitFn),
        ("7x7", $f::<U7, U7> as $crate::runner::UnitFn),
        ("8x1", $f::<U8, U1> as $crate::runner::UnitFn),
        ("8x2", $f::<U8, U2> as $crate::runner::UnitFn),
        ("8x4", $f::<U8, U4> as $crate::runner::UnitFn),
        ("8x8", $f::<U8, U8> as $crate::runner::UnitFn),
        ("9x1", $f::<U9, U1> as $crate::runner::UnitFn),
        ("9x3", $f::<U9, U3> as $crate::runner::UnitFn),
        ("9x9", $f::<U9, U9> as $crate::runner::UnitFn),
        ("10x1", $f::<U10, U1> as $crate::runner::UnitFn),
        ("10x2", $f::<U10, U2> as $crate::runner::UnitFn),
        ("10x5", $f::<U10, U5> as $crate::runner::UnitFn),
        ("10x10", $f::<U10, U10> as $crate::runner::UnitFn),
        ("11x1", $f::<U11, U1> as $crate::runner::UnitFn),
        ("11x11", $f::<U11, U11> as $crate::runner::UnitFn),
        ("12x1", $f::<U12, U1> as $crate::runner::UnitFn),
        ("12x2", $f::<U12, U2> as $crate::runner::UnitFn),
        ("12x3", $f::<U12, U3> as $crate::runner::UnitFn),
        ("12x4", $f::<U12, U4> as $crate::runner::UnitFn),
        ("12x6", $f::<U12, U6> as $crate::runner::UnitFn),
        ("12x12", $f::<U12, U12> as $crate::runner::UnitFn),
        ("13x1", $f::<U13, U1> as $crate::runner::UnitFn),
        ("13x13", $f::<U13, U13> as $crate::runner::UnitFn),
        ("14x1", $f::<U14, U1> as $crate::runner::UnitFn),
        ("14x2", $f::<U14, U2> as $crate::runner::UnitFn),
        ("14x7", $f::<U14, U7> as $crate::runner::UnitFn),
        ("14x14", $f::<U14, U14> as $crate::runner::UnitFn),
        ("15x1", $f::<U15, U1> as $crate::runner::UnitFn),
        ("15x3", $f::<U15, U3> as $crate::runner::UnitFn),
        ("15x5", $f::<U15, U5> as $crate::runner::UnitFn),
        ("15x15", $f::<U15, U15> as $crate::runner::UnitFn),
        ("16x1", $f::<U16, U1> as $crate::runner::UnitFn),
        ("16x2", $f::<U16, U2> as $crate::runner::UnitFn),
        ("16x4", $f::<U16, U4> as $crate::runner::UnitFn),
        ("16x8", $f::<U16, U8> as $crate::runner::UnitFn),
        ("16x16", $f::<U16, U16> as $crate::runner::UnitFn),
        ("17x1", $f::<U17, U1> as $crate::runner::UnitFn),
        ("17x17", $f::<U17, U17> as $crate::runner::UnitFn),
        ("18x1", $f::<U18, U1> as $crate::runner::UnitFn),
        ("18x2", $f::<U18, U2> as $crate::runner::UnitFn),
        ("18x3", $f::<U18, U3> as $crate::runner::UnitFn),
        ("18x6", $f::<U18, U6> as $crate::runner::UnitFn),
        ("18x9", $f::<U18, U9> as $crate::runner::UnitFn),
        ("18x18", $f::<U18, U18> as $crate::runner::UnitFn),
        ("19x1", $f::<U19, U1> as $crate::runner::UnitFn),
        ("19x19", $f::<U19, U19> as $crate::runner::UnitFn),
        ("20x1", $f::<U20, U1> as $crate::runner::UnitFn),
        ("20x2", $f::<U20, U2> as $crate::runner::UnitFn),
        ("20x4", $f::<U20, U4> as $crate::runner::UnitFn),
        ("20x5", $f::<U20, U5> as $crate::runner::UnitFn),
        ("20x10", $f::<U20, U10> as $crate::runner::UnitFn),
        ("20x20", $f::<U20, U20> as $crate::runner::UnitFn),
        ("21x1", $f::<U21, U1> as $crate::runner::UnitFn),
        ("21x3", $f::<U21, U3> as $crate::runner::UnitFn),
        ("21x7", $f::<U21, U7> as $crate::runner::UnitFn),
        ("21x21", $f::<U21, U21> as $crate::runner::UnitFn),
        ("22x1", $f::<U22, U1> as $crate::runner::UnitFn),
        ("22x2", $f::<U22, U2> as $crate::runner::UnitFn),
        ("22x11", $f::<U22, U11> as $crate::runner::UnitFn),
        ("22x22", $f::<U22, U22> as $crate::runner::UnitFn),
        ("23x1", $f::<U23, U1> as $crate::runner::UnitFn),
        ("23x23", $f::<U23, U23> as $crate::runner::UnitFn),
        ("24x1", $f::<U24, U1> as $crate::runner::UnitFn),
        ("24x2", $f::<U24, U2> as $crate::runner::UnitFn),
        ("24x3", $f::<U24, U3> as $crate::runner::UnitFn),
        ("24x4", $f::<U24, U4> as $crate::runner::UnitFn),
        ("24x6", $f::<U24, U6> as $crate::runner::UnitFn),
        ("24x8", $f::<U24, U8> as $crate::runner::UnitFn),
        ("24x12", $f::<U24, U12> as $crate::runner::UnitFn),
        ("24x24", $f::<U24, U24> as $crate::runner::UnitFn),
        ("25x1", $f::<U25, U1> as $crate::runner::UnitFn),
        ("25x5", $f::<U25, U5> as $crate::runner::UnitFn),
        ("25x25", $f::<U25, U25> as $crate::runner::UnitFn),
        ("26x1", $f::<U26, U1> as $crate::runner::UnitFn),
        ("26x2", $f::<U26, U2> as $crate::runner::UnitFn),
        ("26x13", $f::<U26, U13> as $crate::runner::UnitFn),
        ("26x26", $f::<U26, U26> as $crate::runner::UnitFn),
        ("27x1", $f::<U27, U1> as $crate::runner::UnitFn),
        ("27x3", $f::<U27, U3> as $crate::runner::UnitFn),
        ("27x9", $f::<U27, U9> as $crate::runner::UnitFn),
        ("27x27", $f::<U27, U27> as $crate::runner::UnitFn),
        ("28x1", $f::<U28, U1> as $crate::runner::UnitFn),
        ("28x2", $f::<U28, U2> as $crate::runner::UnitFn),
        ("28x4", $f::<U28, U4> as $crate::runner::UnitFn),
        ("28x7", $f::<U28, U7> as $crate::runner::UnitFn),
        ("28x14", $f::<U28, U14> as $crate::runner::UnitFn),
        ("28x28", $f::<U28, U28> as $crate::runner::UnitFn),
        ("29x1", $f::<U29, U1> as $crate::runner::UnitFn),
        ("29x29", $f::<U29, U29> as $crate::runner::UnitFn),
        ("30x1", $f::<U30, U1> as $crate::runner::UnitFn),
        ("30x2", $f::<U30, U2> as $crate::runner::UnitFn),
        ("30x3", $f::<U30, U3> as $crate::runner::UnitFn),
        ("30x5", $f::<U30, U5> as $crate::runner::UnitFn),
        ("30x6", $f::<U30, U6> as $crate::runner::UnitFn),
        ("30x10", $f::<U30, U10> as $crate::runner::UnitFn),
        ("30x15", $f::<U30, U15> as $crate::runner::UnitFn),
        ("30x30", $f::<U30, U30> as $crate::runner::UnitFn),
        ("31x1", $f::<U31, U1> as $crate::runner::UnitFn),
        ("31x31", $f::<U31, U31> as $crate::runner::UnitFn),
        ("32x1", $f::<U32, U1> as $crate::runner::UnitFn),
        ("32x2", $f::<U32, U2> as $crate::runner::UnitFn),
        ("32x4", $f::<U32, U4> as $crate::runner::UnitFn),
        ("32x8", $f::<U32, U8> as $crate::runner::UnitFn),
        ("32x16", $f::<U32, U16> as $crate::runner::UnitFn),
        ("32x32", $f::<U32, U32> as $crate::runner::UnitFn),
    ] };
    ($f:ident, $e:ty) => { &[
        ("0x1", $f::<$e, U0, U1> as $crate::runner::UnitFn),
        ("0x2", $f::<$e, U0, U2> as $crate::runner::UnitFn),
        ("0x3", $f::<$e, U0, U3> as $crate::runner::UnitFn),
        ("0x4", $f::<$e, U0, U4> as $crate::runner::UnitFn),
        ("0x5", $f::<$e, U0, U5> as $crate::runner::UnitFn),
        ("0x6", $f::<$e, U0, U6> as $crate::runner::UnitFn),
        ("0x7", $f::<$e, U0, U7> as $crate::runner::UnitFn),
        ("0x8", $f::<$e, U0, U8> as $crate::runner::UnitFn),
        ("0x9", $f::<$e, U0, U9> as $crate::runner::UnitFn),
        ("0x10", $f::<$e, U0, U10> as $crate::runner::UnitFn),
        ("0x11", $f::<$e, U0, U11> as $crate::runner::UnitFn),
        ("0x12", $f::<$e, U0, U12> as $crate::runner::UnitFn),
        ("0x13", $f::<$e, U0, U13> as $crate::runner::UnitFn),
        ("0x14", $f::<$e, U0, U14> as $crate::runner::UnitFn),
        ("0x15", $f::<$e, U0, U15> as $crate::runner::UnitFn),
        ("0x16", $f::<$e, U0, U16> as $crate::runner::UnitFn),
        ("0x17", $f::<$e, U0, U17> as $crate::runner::UnitFn),
        ("0x18", $f::<$e, U0, U18> as $crate::runner::UnitFn),
        ("0x19", $f::<$e, U0, U19> as $crate::runner::UnitFn),
        ("0x20", $f::<$e, U0, U20> as $crate::runner::UnitFn),
        ("0x21", $f::<$e, U0, U21> as $crate::runner::UnitFn),
        ("0x22", $f::<$e, U0, U22> as $crate::runner::UnitFn),
        ("0x23", $f::<$e, U0, U23> as $crate::runner::UnitFn),
        ("0x24", $f::<$e, U0, U24> as $crate::runner::UnitFn),
        ("0x25", $f::<$e, U0, U25> as $crate::runner::UnitFn),
        ("0x26", $f::<$e, U0, U26> as $crate::runner::UnitFn),
        ("0x27", $f::<$e, U0, U27> as $crate::runner::UnitFn),
        ("0x28", $f::<$e, U0, U28> as $crate::runner::UnitFn),
        ("0x29", $f::<$e, U0, U29> as $crate::runner::UnitFn),
        ("0x30", $f::<$e, U0, U30> as $crate::runner::UnitFn),
        ("0x31", $f::<$e, U0, U31> as $crate::runner::UnitFn),
        ("0x32", $f::<$e, U0, U32> as $crate::runner::UnitFn),
        ("1x1", $f::<$e, U1, U1> as $crate::runner::UnitFn),
        ("2x1", $f::<$e, U2, U1> as $crate::runner::UnitFn),
        ("2x2", $f::<$e, U2, U2> as $crate::runner::UnitFn),
        ("3x1", $f::<$e, U3, U1> as $crate::runner::UnitFn),
        ("3x3", $f::<$e, U3, U3> as $crate::runner::UnitFn),
        ("4x1", $f::<$e, U4, U1> as $crate::runner::UnitFn),
        ("4x2", $f::<$e, U4, U2> as $crate::runner::UnitFn),
        ("4x4", $f::<$e, U4, U4> as $crate::runner::UnitFn),
        ("5x1", $f::<$e, U5, U1> as $crate::runner::UnitFn),
        ("5x5", $f::<$e, U5, U5> as $crate::runner::UnitFn),
        ("6x1", $f::<$e, U6, U1> as $crate::runner::UnitFn),
        ("6x2", $f::<$e, U6, U2> as $crate::runner::UnitFn),
        ("6x3", $f::<$e, U6, U3> as $crate::runner::UnitFn),
        ("6x6", $f::<$e, U6, U6> as $crate::runner::UnitFn),
        ("7x1", $f::<$e, U7, U1> as $crate::runner::UnitFn),
        ("7x7", $f::<$e, U7, U7> as $crate::runner::UnitFn),
        ("8x1", $f::<$e, U8, U1> as $crate::runner::UnitFn),
        ("8x2", $f::<$e, U8, U2> as $crate::runner::UnitFn),
        ("8x4", $f::<$e, U8, U4> as $crate::runner::UnitFn),
        ("8x8", $f::<$e, U8, U8> as $crate::runner::UnitFn),
        ("9x1", $f::<$e, U9, U1> as $crate::runner::UnitFn),
        ("9x3", $f::<$e, U9, U3> as $crate::runner::UnitFn),
        ("9x9", $f::<$e, U9, U9> as $crate::runner::UnitFn),
        ("10x1", $f::<$e, U10, U1> as $crate::runner::UnitFn),
        ("10x2", $f::<$e, U10, U2> as $crate::runner::UnitFn),
        ("10x5", $f::<$e, U10, U5> as $crate::runner::UnitFn),
        ("10x10", $f::<$e, U10, U10> as $crate::runner::UnitFn),
        ("11x1", $f::<$e, U11, U1> as $crate::runner::UnitFn),
        ("11x11", $f::<$e, U11, U11> as $crate::runner::UnitFn),
        ("12x1", $f::<$e, U12, U1> as $crate::runner::UnitFn),
        ("12x2", $f::<$e, U12, U2> as $crate::runner::UnitFn),
        ("12x3", $f::<$e, U12, U3> as $crate::runner::UnitFn),
        ("12x4", $f::<$e, U12, U4> as $crate::runner::UnitFn),
        ("12x6", $f::<$e, U12, U6> as $crate::runner::UnitFn),
        ("12x12", $f::<$e, U12, U12> as $crate::runner::UnitFn),
        ("13x1", $f::<$e, U13, U1> as $crate::runner::UnitFn),
        ("13x13", $f::<$e, U13, U13> as $crate::runner::UnitFn),
        ("14x1", $f::<$e, U14, U1> as $crate::runner::UnitFn),
        ("14x2", $f::<$e, U14, U2> as $crate::runner::UnitFn),
        ("14x7", $f::<$e, U14, U7> as $crate::runner::UnitFn),
        ("14x14", $f::<$e, U14, U14> as $crate::runner::UnitFn),
        ("15x1", $f::<$e, U15, U1> as $crate::runner::UnitFn),
        ("15x3", $f::<$e, U15, U3> as $crate::runner::UnitFn),
        ("15x5", $f::<$e, U15, U5> as $crate::runner::UnitFn),
        ("15x15", $f::<$e, U15, U15> as $crate::runner::UnitFn),
        ("16x1", $f::<$e, U16, U1> as $crate::runner::UnitFn),
        ("16x2", $f::<$e, U16, U2> as $crate::runner::UnitFn),
        ("16x4", $f::<$e, U16, U4> as $crate::runner::UnitFn),
        ("16x8", $f::<$e, U16, U8> as $crate::runner::UnitFn),
        ("16x16", $f::<$e, U16, U16> as $crate::runner::UnitFn),
        ("17x1", $f::<$e, U17, U1> as $crate::runner::UnitFn),
        ("17x17", $f::<$e, U17, U17> as $crate::runner::UnitFn),
        ("18x1", $f::<$e, U18, U1> as $crate::runner::UnitFn),
        ("18x2", $f::<$e, U18, U2> as $crate::runner::UnitFn),
        ("18x3", $f::<$e, U18, U3> as $crate::runner::UnitFn),
        ("18x6", $f::<$e, U18, U6> as $crate::runner::UnitFn),
        ("18x9", $f::<$e, U18, U9> as $crate::runner::UnitFn),
        ("18x18", $f::<$e, U18, U18> as $crate::runner::UnitFn),
        ("19x1", $f::<$e, U19, U1> as $crate::runner::UnitFn),
        ("19x19", $f::<$e, U19, U19> as $crate::runner::UnitFn),
        ("20x1", $f::<$e, U20, U1> as $crate::runner::UnitFn),
        ("20x2", $f::<$e, U20, U2> as $crate::runner::UnitFn),
        ("20x4", $f::<$e, U20, U4> as $crate::runner::UnitFn),
        ("20x5", $f::<$e, U20, U5> as $crate::runner::UnitFn),
        ("20x10", $f::<$e, U20, U10> as $crate::runner::UnitFn),
        ("20x20", $f::<$e, U20, U20> as $crate::runner::UnitFn),
        ("21x1", $f::<$e, U21, U1> as $crate::runner::UnitFn),
        ("21x3", $f::<$e, U21, U3> as $crate::runner::UnitFn),
        ("21x7", $f::<$e, U21, U7> as $crate::runner::UnitFn),
        ("21x21", $f::<$e, U21, U21> as $crate::runner::UnitFn),
        ("22x1", $f::<$e, U22, U1> as $crate::runner::UnitFn),
        ("22x2", $f::<$e, U22, U2> as $crate::runner::UnitFn),
        ("22x11", $f::<$e, U22, U11> as $crate::runner::UnitFn),
        ("22x22", $f::<$e, U22, U22> as $crate::runner::UnitFn),
        ("23x1", $f::<$e, U23, U1> as $crate::runner::UnitFn),
        ("23x23", $f::<$e, U23, U23> as $crate::runner::UnitFn),
        ("24x1", $f::<$e, U24, U1> as $crate::runner::UnitFn),
        ("24x2", $f::<$e, U24, U2> as $crate::runner::UnitFn),
        ("24x3", $f::<$e, U24, U3> as $crate::runner::UnitFn),
        ("24x4", $f::<$e, U24, U4> as $crate::runner::UnitFn),
        ("24x6", $f::<$e, U24, U6> as $crate::runner::UnitFn),
        ("24x8", $f::<$e, U24, U8> as $crate::runner::UnitFn),
        ("24x12", $f::<$e, U24, U12> as $crate::runner::UnitFn),
        ("24x24", $f::<$e, U24, U24> as $crate::runner::UnitFn),
        ("25x1", $f::<$e, U25, U1> as $crate::runner::UnitFn),
        ("25x5", $f::<$e, U25, U5> as $crate::runner::UnitFn),
        ("25x25", $f::<$e, U25, U25> as $crate::runner::UnitFn),
        ("26x1", $f::<$e, U26, U1> as $crate::runner::UnitFn),
        ("26x2", $f::<$e, U26, U2> as $crate::runner::UnitFn),
        ("26x13", $f::<$e, U26, U13> as $crate::runner::UnitFn),
        ("26x26", $f::<$e, U26, U26> as $crate::runner::UnitFn),
        ("27x1", $f::<$e, U27, U1> as $crate::runner::UnitFn),
        ("27x3", $f::<$e, U27, U3> as $crate::runner::UnitFn),
        ("27x9", $f::<$e, U27, U9> as $crate::runner::UnitFn),
        ("27x27", $f::<$e, U27, U27> as $crate::runner::UnitFn),
        ("28x1", $f::<$e, U28, U1> as $crate::runner::UnitFn),
        ("28x2", $f::<$e, U28, U2> as $crate::runner::UnitFn),
        ("28x4", $f::<$e, U28, U4> as $crate::runner::UnitFn),
        ("28x7", $f::<$e, U28, U7> as $crate::runner::UnitFn),
        ("28x14", $f::<$e, U28, U14> as $crate::runner::UnitFn),
        ("28x28", $f::<$e, U28, U28> as $crate::runner::UnitFn),
        ("29x1", $f::<$e, U29, U1> as $crate::runner::UnitFn),
        ("29x29", $f::<$e, U29, U29> as $crate::runner::UnitFn),
        ("30x1", $f::<$e, U30, U1> as $crate::runner::UnitFn),
        ("30x2", $f::<$e, U30, U2> as $crate::runner::UnitFn),
        ("30x3", $f::<$e, U30, U3> as $crate::runner::UnitFn),
        ("30x5", $f::<$e, U30, U5> as $crate::runner::UnitFn),
        ("30x6", $f::<$e, U30, U6> as $crate::runner::UnitFn),
        ("30x10", $f::<$e, U30, U10> as $crate::runner::UnitFn),
        ("30x15", $f::<$e, U30, U15> as $crate::runner::UnitFn),
        ("30x30", $f::<$e, U30, U30> as $crate::runner::UnitFn),
        ("31x1", $f::<$e, U31, U1> as $crate::runner::UnitFn),
        ("31x31", $f::<$e, U31, U31> as $crate::runner::UnitFn),
        ("32x1", $f::<$e, U32, U1> as $crate::runner::UnitFn),
        ("32x2", $f::<$e, U32, U2> as $crate::runner::UnitFn),
        ("32x4", $f::<$e, U32, U4> as $crate::runner::UnitFn),
        ("32x8", $f::<$e, U32, U8> as $crate::runner::UnitFn),
        ("32x16", $f::<$e, U32, U16> as $crate::runner::UnitFn),
        ("32x32", $f::<$e, U32, U32> as $crate::runner::UnitFn),
    ] };
}

/// shapes with at most 32 elements and a column
#[macro_export]
macro_rules! dims_flat {
    ($f:ident) => { &[
        ("0x1", $f::<U0, U1> as $crate::runner::UnitFn),
        ("0x2", $f::<U0, U2> as $crate::runner::UnitFn),
        ("0x3", $f::<U0, U3> as $crate::runner::UnitFn),
        ("0x4", $f::<U0, U4> as $crate::runner::UnitFn),
        ("0x5", $f::<U0, U5> as $crate::runner::UnitFn),
        ("0x6", $f::<U0, U6> as $crate::runner::UnitFn),
        ("0x7", $f::<U0, U7> as $crate::runner::UnitFn),
        ("0x8", $f::<U0, U8> as $crate::runner::UnitFn),
        ("0x9", $f::<U0, U9> as $crate::runner::UnitFn),
        ("0x10", $f::<U0, U10> as $crate::runner::UnitFn),
        ("0x11", $f::<U0, U11> as $crate::runner::UnitFn),
        ("0x12", $f::<U0, U12> as $crate::runner::UnitFn),
        ("0x13", $f::<U0, U13> as $crate::runner::UnitFn),
        ("0x14", $f::<U0, U14> as $crate::runner::UnitFn),
        ("0x15", $f::<U0, U15> as $crate::runner::UnitFn),
        ("0x16", $f::<U0, U16> as $crate::runner::UnitFn),
        ("0x17", $f::<U0, U17> as $crate::runner::UnitFn),
        ("0x18", $f::<U0, U18> as $crate::runner::UnitFn),
        ("0x19", $f::<U0, U19> as $crate::runner::UnitFn),
        ("0x20", $f::<U0, U20> as $crate::runner::UnitFn),
        ("0x21", $f::<U0, U21> as $crate::runner::UnitFn),
        ("0x22", $f::<U0, U22> as $crate::runner::UnitFn),
        ("0x23", $f::<U0, U23> as $crate::runner::UnitFn),
        ("0x24", $f::<U0, U24> as $crate::runner::UnitFn),
        ("0x25", $f::<U0, U25> as $crate::runner::UnitFn),
        ("0x26", $f::<U0, U26> as $crate::runner::UnitFn),
        ("0x27", $f::<U0, U27> as $crate::runner::UnitFn),
        ("0x28", $f::<U0, U28> as $crate::runner::UnitFn),
        ("0x29", $f::<U0, U29> as $crate::runner::UnitFn),
        ("0x30", $f::<U0, U30> as $crate::runner::UnitFn),
        ("0x31", $f::<U0, U31> as $crate::runner::UnitFn),
        ("0x32", $f::<U0, U32> as $crate::runner::UnitFn),
        ("1x1", $f::<U1, U1> as $crate::runner::UnitFn),
        ("1x2", $f::<U1, U2> as $crate::runner::UnitFn),
        ("1x3", $f::<U1, U3> as $crate::runner::UnitFn),
        ("1x4", $f::<U1, U4> as $crate::runner::UnitFn),
        ("1x5", $f::<U1, U5> as $crate::runner::UnitFn),
        ("1x6", $f::<U1, U6> as $crate::runner::UnitFn),
        ("1x7", $f::<U1, U7> as $crate::runner::UnitFn),
        ("1x8", $f::<U1, U8> as $crate::runner::UnitFn),
        ("1x9", $f::<U1, U9> as $crate::runner::UnitFn),
        ("1x10", $f::<U1, U10> as $crate::runner::UnitFn),
        ("1x11", $f::<U1, U11> as $crate::runner::UnitFn),
        ("1x12", $f::<U1, U12> as $crate::runner::UnitFn),
        ("1x13", $f::<U1, U13> as $crate::runner::UnitFn),
        ("1x14", $f::<U1, U14> as $crate::runner::UnitFn),
        ("1x15", $f::<U1, U15> as $crate::runner::UnitFn),
        ("1x16", $f::<U1, U16> as $crate::runner::UnitFn),
        ("1x17", $f::<U1, U17> as $crate::runner::UnitFn),
        ("1x18", $f::<U1, U18> as $crate::runner::UnitFn),
        ("1x19", $f::<U1, U19> as $crate::runner::UnitFn),
        ("1x20", $f::<U1, U20> as $crate::runner::UnitFn),
        ("1x21", $f::<U1, U21> as $crate::runner::UnitFn),
        ("1x22", $f::<U1, U22> as $crate::runner::UnitFn),
        ("1x23", $f::<U1, U23> as $crate::runner::UnitFn),
        ("1x24", $f::<U1, U24> as $crate::runner::UnitFn),
        ("1x25", $f::<U1, U25> as $crate::runner::UnitFn),
        ("1x26", $f::<U1, U26> as $crate::runner::UnitFn),
        ("1x27", $f::<U1, U27> as $crate::runner::UnitFn),
        ("1x28", $f::<U1, U28> as $crate::runner::UnitFn),
        ("1x29", $f::<U1, U29> as $crate::runner::UnitFn),
        ("1x30", $f::<U1, U30> as $crate::runner::UnitFn),
        ("1x31", $f::<U1, U31> as $crate::runner::UnitFn),
        ("1x32", $f::<U1, U32> as $crate::runner::UnitFn),
        ("2x1", $f::<U2, U1> as $crate::runner::UnitFn),
        ("2x2", $f::<U2, U2> as $crate::runner::UnitFn),
        ("2x3", $f::<U2, U3> as $crate::runner::UnitFn),
        ("2x4", $f::<U2, U4> as $crate::runner::UnitFn),
        ("2x5", $f::<U2, U5> as $crate::runner::UnitFn),
        ("2x6", $f::<U2, U6> as $crate::runner::UnitFn),
        ("2x7", $f::<U2, U7> as $crate::runner::UnitFn),
        ("2x8", $f::<U2, U8> as $crate::runner::UnitFn),
        ("2x9", $f::<U2, U9> as $crate::runner::UnitFn),
        ("2x10", $f::<U2, U10> as $crate::runner::UnitFn),
        ("2x11", $f::<U2, U11> as $crate::runner::UnitFn),
        ("2x12", $f::<U2, U12> as $crate::runner::UnitFn),
        ("2x13", $f::<U2, U13> as $crate::runner::UnitFn),
        ("2x14", $f::<U2, U14> as $crate::runner::UnitFn),
        ("2x15", $f::<U2, U15> as $crate::runner::UnitFn),
        ("2x16", $f::<U2, U16> as $crate::runner::UnitFn),
        ("3x1", $f::<U3, U1> as $crate::runner::UnitFn),
        ("3x2", $f::<U3, U2> as $crate::runner::UnitFn),
        ("3x3", $f::<U3, U3> as $crate::runner::UnitFn),
        ("3x4", $f::<U3, U4> as $crate::runner::UnitFn),
        ("3x5", $f::<U3, U5> as $crate::runner::UnitFn),
        ("3x6", $f::<U3, U6> as $crate::runner::UnitFn),
        ("3x7", $f::<U3, U7> as $crate::runner::UnitFn),
        ("3x8", $f::<U3, U8> as $crate::runner::UnitFn),
        ("3x9", $f::<U3, U9> as $crate::runner::UnitFn),
        ("3x10", $f::<U3, U10> as $crate::runner::UnitFn),
        ("4x1", $f::<U4, U1> as $crate::runner::UnitFn),
        ("4x2", $f::<U4, U2> as $crate::runner::UnitFn),
        ("4x3", $f::<U4, U3> as $crate::runner::UnitFn),
        ("4x4", $f::<U4, U4> as $crate::runner::UnitFn),
        ("4x5", $f::<U4, U5> as $crate::runner::UnitFn),
        ("4x6", $f::<U4, U6> as $crate::runner::UnitFn),
        ("4x7", $f::<U4, U7> as $crate::runner::UnitFn),
        ("4x8", $f::<U4, U8> as $crate::runner::UnitFn),
        ("5x1", $f::<U5, U1> as $crate::runner::UnitFn),
        ("5x2", $f::<U5, U2> as $crate::runner::UnitFn),
        ("5x3", $f::<U5, U3> as $crate::runner::UnitFn),
        ("5x4", $f::<U5, U4> as $crate::runner::UnitFn),
        ("5x5", $f::<U5, U5> as $crate::runner::UnitFn),
        ("5x6", $f::<U5, U6> as $crate::runner::UnitFn),
        ("6x1", $f::<U6, U1> as $crate::runner::UnitFn),
        ("6x2", $f::<U6, U2> as $crate::runner::UnitFn),
        ("6x3", $f::<U6, U3> as $crate::runner::UnitFn),
        ("6x4", $f::<U6, U4> as $crate::runner::UnitFn),
        ("6x5", $f::<U6, U5> as $crate::runner::UnitFn),
        ("7x1", $f::<U7, U1> as $crate::runner::UnitFn),
        ("7x2", $f::<U7, U2> as $crate::runner::UnitFn),
        ("7x3", $f::<U7, U3> as $crate::runner::UnitFn),
        ("7x4", $f::<U7, U4> as $crate::runner::UnitFn),
        ("8x1", $f::<U8, U1> as $crate::runner::UnitFn),
        ("8x2", $f::<U8, U2> as $crate::runner::UnitFn),
        ("8x3", $f::<U8, U3> as $crate::runner::UnitFn),
        ("8x4", $f::<U8, U4> as $crate::runner::UnitFn),
        ("9x1", $f::<U9, U1> as $crate::runner::UnitFn),
        ("9x2", $f::<U9, U2> as $crate::runner::UnitFn),
        ("9x3", $f::<U9, U3> as $crate::runner::UnitFn),
        ("10x1", $f::<U10, U1> as $crate::runner::UnitFn),
        ("10x2", $f::<U10, U2> as $crate::runner::UnitFn),
        ("10x3", $f::<U10, U3> as $crate::runner::UnitFn),
        ("11x1", $f::<U11, U1> as $crate::runner::UnitFn),
        ("11x2", $f::<U11, U2> as $crate::runner::UnitFn),
        ("12x1", $f::<U12, U1> as $crate::runner::UnitFn),
        ("12x2", $f::<U12, U2> as $crate::runner::UnitFn),
        ("13x1", $f::<U13, U1> as $crate::runner::UnitFn),
        ("13x2", $f::<U13, U2> as $crate::runner::UnitFn),
        ("14x1", $f::<U14, U1> as $crate::runner::UnitFn),
        ("14x2", $f::<U14, U2> as $crate::runner::UnitFn),
        ("15x1", $f::<U15, U1> as $crate::runner::UnitFn),
        ("15x2", $f::<U15, U2> as $crate::runner::UnitFn),
        ("16x1", $f::<U16, U1> as $crate::runner::UnitFn),
        ("16x2", $f::<U16, U2> as $crate::runner::UnitFn),
        ("17x1", $f::<U17, U1> as $crate::runner::UnitFn),
        ("18x1", $f::<U18, U1> as $crate::runner::UnitFn),
        ("19x1", $f::<U19, U1> as $crate::runner::UnitFn),
        ("20x1", $f::<U20, U1> as $crate::runner::UnitFn),
        ("21x1", $f::<U21, U1> as $crate::runner::UnitFn),
        ("22x1", $f::<U22, U1> as $crate::runner::UnitFn),
        ("23x1", $f::<U23, U1> as $crate::runner::UnitFn),
        ("24x1", $f::<U24, U1> as $crate::runner::UnitFn),
        ("25x1", $f::<U25, U1> as $crate::runner::UnitFn),
        ("26x1", $f::<U26, U1> as $crate::runner::UnitFn),
        ("27x1", $f::<U27, U1> as $crate::runner::UnitFn),
        ("28x1", $f::<U28, U1> as $crate::runner::UnitFn),
        ("29x1", $f::<U29, U1> as $crate::runner::UnitFn),
        ("30x1", $f::<U30, U1> as $crate::runner::UnitFn),
        ("31x1", $f::<U31, U1> as $crate::runner::UnitFn),
        ("32x1", $f::<U32, U1> as $crate::runner::UnitFn),
    ] };
    ($f:ident, $e:ty) => { &[
        ("0x1", $f::<$e, U0, U1> as $crate::runner::UnitFn),
        ("0x2", $f::<$e, U0, U2> as $crate::runner::UnitFn),
        ("0x3", $f::<$e, U0, U3> as $crate::runner::UnitFn),
        ("0x4", $f::<$e, U0, U4> as $crate::runner::UnitFn),
        ("0x5", $f::<$e, U0, U5> as $crate::runner::UnitFn),
        ("0x6", $f::<$e, U0, U6> as $crate::runner::UnitFn),
        ("0x7", $f::<$e, U0, U7> as $crate::runner::UnitFn),
        ("0x8", $f::<$e, U0, U8> as $crate::runner::UnitFn),
        ("0x9", $f::<$e, U0, U9> as $crate::runner::UnitFn),
        ("0x10", $f::<$e, U0, U10> as $crate::runner::UnitFn),
        ("0x11", $f::<$e, U0, U11> as $crate::runner::UnitFn),
        ("0x12", $f::<$e, U0, U12> as $crate::runner::UnitFn),
        ("0x13", $f::<$e, U0, U13> as $crate::runner::UnitFn),
        ("0x14", $f::<$e, U0, U14> as $crate::runner::UnitFn),
        ("0x15", $f::<$e, U0, U15> as $crate::runner::UnitFn),
        ("0x16", $f::<$e, U0, U16> as $crate::runner::UnitFn),
        ("0x17", $f::<$e, U0, U17> as $crate::runner::UnitFn),
        ("0x18", $f::<$e, U0, U18> as $crate::runner::UnitFn),
        ("0x19", $f::<$e, U0, U19> as $crate::runner::UnitFn),
        ("0x20", $f::<$e, U0, U20> as $crate::runner::UnitFn),
        ("0x21", $f::<$e, U0, U21> as $crate::runner::UnitFn),
        ("0x22", $f::<$e, U0, U22> as $crate::runner::UnitFn),
        ("0x23", $f::<$e, U0, U23> as $crate::runner::UnitFn),
        ("0x24", $f::<$e, U0, U24> as $crate::runner::UnitFn),
        ("0x25", $f::<$e, U0, U25> as $crate::runner::UnitFn),
        ("0x26", $f::<$e, U0, U26> as $crate::runner::UnitFn),
        ("0x27", $f::<$e, U0, U27> as $crate::runner::UnitFn),
        ("0x28", $f::<$e, U0, U28> as $crate::runner::UnitFn),
        ("0x29", $f::<$e, U0, U29> as $crate::runner::UnitFn),
        ("0x30", $f::<$e, U0, U30> as $crate::runner::UnitFn),
        ("0x31", $f::<$e, U0, U31> as $crate::runner::UnitFn),
        ("0x32", $f::<$e, U0, U32> as $crate::runner::UnitFn),
        ("1x1", $f::<$e, U1, U1> as $crate::runner::UnitFn),
        ("1x2", $f::<$e, U1, U2> as $crate::runner::UnitFn),
        ("1x3", $f::<$e, U1, U3> as $crate::runner::UnitFn),
        ("1x4", $f::<$e, U1, U4> as $crate::runner::UnitFn),
        ("1x5", $f::<$e, U1, U5> as $crate::runner::UnitFn),
        ("1x6", $f::<$e, U1, U6> as $crate::runner::UnitFn),
        ("1x7", $f::<$e, U1, U7> as $crate::runner::UnitFn),
        ("1x8", $f::<$e, U1, U8> as $crate::runner::UnitFn),
        ("1x9", $f::<$e, U1, U9> as $crate::runner::UnitFn),
        ("1x10", $f::<$e, U1, U10> as $crate::runner::UnitFn),
        ("1x11", $f::<$e, U1, U11> as $crate::runner::UnitFn),
        ("1x12", $f::<$e, U1, U12> as $crate::runner::UnitFn),
        ("1x13", $f::<$e, U1, U13> as $crate::runner::UnitFn),
        ("1x14", $f::<$e, U1, U14> as $crate::runner::UnitFn),
        ("1x15", $f::<$e, U1, U15> as $crate::runner::UnitFn),
        ("1x16", $f::<$e, U1, U16> as $crate::runner::UnitFn),
        ("1x17", $f::<$e, U1, U17> as $crate::runner::UnitFn),
        ("1x18", $f::<$e, U1, U18> as $crate::runner::UnitFn),
        ("1x19", $f::<$e, U1, U19> as $crate::runner::UnitFn),
        ("1x20", $f::<$e, U1, U20> as $crate::runner::UnitFn),
        ("1x21", $f::<$e, U1, U21> as $crate::runner::UnitFn),
        ("1x22", $f::<$e, U1, U22> as $crate::runner::UnitFn),
        ("1x23", $f::<$e, U1, U23> as $crate::runner::UnitFn),
        ("1x24", $f::<$e, U1, U24> as $crate::runner::UnitFn),
        ("1x25", $f::<$e, U1, U25> as $crate::runner::UnitFn),
        ("1x26", $f::<$e, U1, U26> as $crate::runner::UnitFn),
        ("1x27", $f::<$e, U1, U27> as $crate::runner::UnitFn),
        ("1x28", $f::<$e, U1, U28> as $crate::runner::UnitFn),
        ("1x29", $f::<$e, U1, U29> as $crate::runner::UnitFn),
        ("1x30", $f::<$e, U1, U30> as $crate::runner::UnitFn),
        ("1x31", $f::<$e, U1, U31> as $crate::runner::UnitFn),
        ("1x32", $f::<$e, U1, U32> as $crate::runner::UnitFn),
        ("2x1", $f::<$e, U2, U1> as $crate::runner::UnitFn),
        ("2x2", $f::<$e, U2, U2> as $crate::runner::UnitFn),
        ("2x3", $f::<$e, U2, U3> as $crate::runner::UnitFn),
        ("2x4", $f::<$e, U2, U4> as $crate::runner::UnitFn),
        ("2x5", $f::<$e, U2, U5> as $crate::runner::UnitFn),
        ("2x6", $f::<$e, U2, U6> as $crate::runner::UnitFn),
        ("2x7", $f::<$e, U2, U7> as $crate::runner::UnitFn),
        ("2x8", $f::<$e, U2, U8> as $crate::runner::UnitFn),
        ("2x9", $f::<$e, U2, U9> as $crate::runner::UnitFn),
        ("2x10", $f::<$e, U2, U10> as $crate::runner::UnitFn),
        ("2x11", $f::<$e, U2, U11> as $crate::runner::UnitFn),
        ("2x12", $f::<$e, U2, U12> as $crate::runner::UnitFn),
        ("2x13", $f::<$e, U2, U13> as $crate::runner::UnitFn),
        ("2x14", $f::<$e, U2, U14> as $crate::runner::UnitFn),
        ("2x15", $f::<$e, U2, U15> as $crate::runner::UnitFn),
        ("2x16", $f::<$e, U2, U16> as $crate::runner::UnitFn),
        ("3x1", $f::<$e, U3, U1> as $crate::runner::UnitFn),
        ("3x2", $f::<$e, U3, U2> as $crate::runner::UnitFn),
        ("3x3", $f::<$e, U3, U3> as $crate::runner::UnitFn),
        ("3x4", $f::<$e, U3, U4> as $crate::runner::UnitFn),
        ("3x5", $f::<$e, U3, U5> as $crate::runner::UnitFn),
        ("3x6", $f::<$e, U3, U6> as $crate::runner::UnitFn),
        ("3x7", $f::<$e, U3, U7> as $crate::runner::UnitFn),
        ("3x8", $f::<$e, U3, U8> as $crate::runner::UnitFn),
        ("3x9", $f::<$e, U3, U9> as $crate::runner::UnitFn),
        ("3x10", $f::<$e, U3, U10> as $crate::runner::UnitFn),
        ("4x1", $f::<$e, U4, U1> as $crate::runner::UnitFn),
        ("4x2", $f::<$e, U4, U2> as $crate::runner::UnitFn),
        ("4x3", $f::<$e, U4, U3> as $crate::runner::UnitFn),
        ("4x4", $f::<$e, U4, U4> as $crate::runner::UnitFn),
        ("4x5", $f::<$e, U4, U5> as $crate::runner::UnitFn),
        ("4x6", $f::<$e, U4, U6> as $crate::runner::UnitFn),
        ("4x7", $f::<$e, U4, U7> as $crate::runner::UnitFn),
        ("4x8", $f::<$e, U4, U8> as $crate::runner::UnitFn),
        ("5x1", $f::<$e, U5, U1> as $crate::runner::UnitFn),
        ("5x2", $f::<$e, U5, U2> as $crate::runner::UnitFn),
        ("5x3", $f::<$e, U5, U3> as $crate::runner::UnitFn),
        ("5x4", $f::<$e, U5, U4> as $crate::runner::UnitFn),
        ("5x5", $f::<$e, U5, U5> as $crate::runner::UnitFn),
        ("5x6", $f::<$e, U5, U6> as $crate::runner::UnitFn),
        ("6x1", $f::<$e, U6, U1> as $crate::runner::UnitFn),
        ("6x2", $f::<$e, U6, U2> as $crate::runner::UnitFn),
        ("6x3", $f::<$e, U6, U3> as $crate::runner::UnitFn),
        ("6x4", $f::<$e, U6, U4> as $crate::runner::UnitFn),
        ("6x5", $f::<$e, U6, U5> as $crate::runner::UnitFn),
        ("7x1", $f::<$e, U7, U1> as $crate::runner::UnitFn),
        ("7x2", $f::<$e, U7, U2> as $crate::runner::UnitFn),
        ("7x3", $f::<$e, U7, U3> as $crate::runner::UnitFn),
        ("7x4", $f::<$e, U7, U4> as $crate::runner::UnitFn),
        ("8x1", $f::<$e, U8, U1> as $crate::runner::UnitFn),
        ("8x2", $f::<$e, U8, U2> as $crate::runner::UnitFn),
        ("8x3", $f::<$e, U8, U3> as $crate::runner::UnitFn),
        ("8x4", $f::<$e, U8, U4> as $crate::runner::UnitFn),
        ("9x1", $f::<$e, U9, U1> as $crate::runner::UnitFn),
        ("9x2", $f::<$e, U9, U2> as $crate::runner::UnitFn),
        ("9x3", $f::<$e, U9, U3> as $crate::runner::UnitFn),
        ("10x1", $f::<$e, U10, U1> as $crate::runner::UnitFn),
        ("10x2", $f::<$e, U10, U2> as $crate::runner::UnitFn),
        ("10x3", $f::<$e, U10, U3> as $crate::runner::UnitFn),
        ("11x1", $f::<$e, U11, U1> as $crate::runner::UnitFn),
        ("11x2", $f::<$e, U11, U2> as $crate::runner::UnitFn),
        ("12x1", $f::<$e, U12, U1> as $crate::runner::UnitFn),
        ("12x2", $f::<$e, U12, U2> as $crate::runner::UnitFn),
        ("13x1", $f::<$e, U13, U1> as $crate::runner::UnitFn),
        ("13x2", $f::<$e, U13, U2> as $crate::runner::UnitFn),
        ("14x1", $f::<$e, U14, U1> as $crate::runner::UnitFn),
        ("14x2", $f::<$e, U14, U2> as $crate::runner::UnitFn),
        ("15x1", $f::<$e, U15, U1> as $crate::runner::UnitFn),
        ("15x2", $f::<$e, U15, U2> as $crate::runner::UnitFn),
        ("16x1", $f::<$e, U16, U1> as $crate::runner::UnitFn),
        ("16x2", $f::<$e, U16, U2> as $crate::runner::UnitFn),
        ("17x1", $f::<$e, U17, U1> as $crate::runner::UnitFn),
        ("18x1", $f::<$e, U18, U1> as $crate::runner::UnitFn),
        ("19x1", $f::<$e, U19, U1> as $crate::runner::UnitFn),
        ("20x1", $f::<$e, U20, U1> as $crate::runner::UnitFn),
        ("21x1", $f::<$e, U21, U1> as $crate::runner::UnitFn),
        ("22x1", $f::<$e, U22, U1> as $crate::runner::UnitFn),
        ("23x1", $f::<$e, U23, U1> as $crate::runner::UnitFn),
        ("24x1", $f::<$e, U24, U1> as $crate::runner::UnitFn),
        ("25x1", $f::<$e, U25, U1> as $crate::runner::UnitFn),
        ("26x1", $f::<$e, U26, U1> as $crate::runner::UnitFn),
        ("27x1", $f::<$e, U27, U1> as $crate::runner::UnitFn),
        ("28x1", $f::<$e, U28, U1> as $crate::runner::UnitFn),
        ("29x1", $f::<$e, U29, U1> as $crate::runner::UnitFn),
        ("30x1", $f::<$e, U30, U1> as $crate::runner::UnitFn),
        ("31x1", $f::<$e, U31, U1> as $crate::runner::UnitFn),
        ("32x1", $f::<$e, U32, U1> as $crate::runner::UnitFn),
    ] };
}

/// small lengths
#[macro_export]
macro_rules! dims_small {
    ($f:ident) => { &[
        ("0", $f::<U0> as $crate::runner::UnitFn),
        ("1", $f::<U1> as $crate::runner::UnitFn),
        ("2", $f::<U2> as $crate::runner::UnitFn),
        ("3", $f::<U3> as $crate::runner::UnitFn),
        ("4", $f::<U4> as $crate::runner::UnitFn),
        ("5", $f::<U5> as $crate::runner::UnitFn),
    ] };
    ($f:ident, $e:ty) => { &[
        ("0", $f::<$e, U0> as $crate::runner::UnitFn),
        ("1", $f::<$e, U1> as $crate::runner::UnitFn),
        ("2", $f::<$e, U2> as $crate::runner::UnitFn),
        ("3", $f::<$e, U3> as $crate::runner::UnitFn),
        ("4", $f::<$e, U4> as $crate::runner::UnitFn),
        ("5", $f::<$e, U5> as $crate::runner::UnitFn),
    ] };
}

/// a spread of lengths
#[macro_export]
macro_rules! dims_few {
    ($f:ident) => { &[
        ("0", $f::<U0> as $crate::runner::UnitFn),
        ("1", $f::<U1> as $crate::runner::UnitFn),
        ("2", $f::<U2> as $crate::runner::UnitFn),
        ("3", $f::<U3> as $crate::runner::UnitFn),
        ("4", $f::<U4> as $crate::runner::UnitFn),
        ("5", $f::<U5> as $crate::runner::UnitFn),
        ("7", $f::<U7> as $crate::runner::UnitFn),
        ("8", $f::<U8> as $crate::runner::UnitFn),
        ("16", $f::<U16> as $crate::runner::UnitFn),
        ("17", $f::<U17> as $crate::runner::UnitFn),
        ("31", $f::<U31> as $crate::runner::UnitFn),
        ("32", $f::<U32> as $crate::runner::UnitFn),
    ] };
    ($f:ident, $e:ty) => { &[
        ("0", $f::<$e, U0> as $crate::runner::UnitFn),
        ("1", $f::<$e, U1> as $crate::runner::UnitFn),
        ("2", $f::<$e, U2> as $crate::runner::UnitFn),
        ("3", $f::<$e, U3> as $crate::runner::UnitFn),
        ("4", $f::<$e, U4> as $crate::runner::UnitFn),
        ("5", $f::<$e, U5> as $crate::runner::UnitFn),
        ("7", $f::<$e, U7> as $crate::runner::UnitFn),
        ("8", $f::<$e, U8> as $crate::runner::UnitFn),
        ("16", $f::<$e, U16> as $crate::runner::UnitFn),
        ("17", $f::<$e, U17> as $crate::runner::UnitFn),
        ("31", $f::<$e, U31> as $crate::runner::UnitFn),
        ("32", $f::<$e, U32> as $crate::runner::UnitFn),
    ] };
}

/// a spread of shapes
#[macro_export]
macro_rules! dims_few_pairs {
    ($f:ident) => { &[
        ("0x0", $f::<U0, U0> as $crate::runner::UnitFn),
        ("0x1", $f::<U0, U1> as $crate::runner::UnitFn),
        ("0x2", $f::<U0, U2> as $crate::runner::UnitFn),
        ("0x3", $f::<U0, U3> as $crate::runner::UnitFn),
        ("0x4", $f::<U0, U4> as $crate::runner::UnitFn),
        ("0x5", $f::<U0, U5> as $crate::runner::UnitFn),
        ("0x7", $f::<U0, U7> as $crate::runner::UnitFn),
        ("0x8", $f::<U0, U8> as $crate::runner::UnitFn),
        ("0x16", $f::<U0, U16> as $crate::runner::UnitFn),
        ("0x17", $f::<U0, U17> as $crate::runner::UnitFn),
        ("0x31", $f::<U0, U31> as $crate::runner::UnitFn),
        ("0x32", $f::<U0, U32> as $crate::runner::UnitFn),
        ("1x0", $f::<U1, U0> as $crate::runner::UnitFn),
        ("1x1", $f::<U1, U1> as $crate::runner::UnitFn),
        ("1x2", $f::<U1, U2> as $crate::runner::UnitFn),
        ("1x3", $f::<U1, U3> as $crate::runner::UnitFn),
        ("1x4", $f::<U1, U4> as $crate::runner::UnitFn),
        ("1x5", $f::<U1, U5> as $crate::runner::UnitFn),
        ("1x7", $f::<U1, U7> as $crate::runner::UnitFn),
        ("1x8", $f::<U1, U8> as $crate::runner::UnitFn),
        ("1x16", $f::<U1, U16> as $crate::runner::UnitFn),
        ("1x17", $f::<U1, U17> as $crate::runner::UnitFn),
        ("1x31", $f::<U1, U31> as $crate::runner::UnitFn),
        ("1x32", $f::<U1, U32> as $crate::runner::UnitFn),
        ("2x0", $f::<U2, U0> as $crate::runner::UnitFn),
        ("2x1", $f::<U2, U1> as $crate::runner::UnitFn),
        ("2x2", $f::<U2, U2> as $crate::runner::UnitFn),
        ("2x3", $f::<U2, U3> as $crate::runner::UnitFn),
        ("2x4", $f::<U2, U4> as $crate::runner::UnitFn),
        ("2x5", $f::<U2, U5> as $crate::runner::UnitFn),
        ("2x7", $f::<U2, U7> as $crate::runner::UnitFn),
        ("2x8", $f::<U2, U8> as $crate::runner::UnitFn),
        ("2x16", $f::<U2, U16> as $crate::runner::UnitFn),
        ("2x17", $f::<U2, U17> as $crate::runner::UnitFn),
        ("2x31", $f::<U2, U31> as $crate::runner::UnitFn),
        ("2x32", $f::<U2, U32> as $crate::runner::UnitFn),
        ("3x0", $f::<U3, U0> as $crate::runner::UnitFn),
        ("3x1", $f::<U3, U1> as $crate::runner::UnitFn),
        ("3x2", $f::<U3, U2> as $crate::runner::UnitFn),
        ("3x3", $f::<U3, U3> as $crate::runner::UnitFn),
        ("3x4", $f::<U3, U4> as $crate::runner::UnitFn),
        ("3x5", $f::<U3, U5> as $crate::runner::UnitFn),
        ("3x7", $f::<U3, U7> as $crate::runner::UnitFn),
        ("3x8", $f::<U3, U8> as $crate::runner::UnitFn),
        ("3x16", $f::<U3, U16> as $crate::runner::UnitFn),
        ("3x17", $f::<U3, U17> as $crate::runner::UnitFn),
        ("3x31", $f::<U3, U31> as $crate::runner::UnitFn),
        ("3x32", $f::<U3, U32> as $crate::runner::UnitFn),
        ("4x0", $f::<U4, U0> as $crate::runner::UnitFn),
        ("4x1", $f::<U4, U1> as $crate::runner::UnitFn),
        ("4x2", $f::<U4, U2> as $crate::runner::UnitFn),
        ("4x3", $f::<U4, U3> as $crate::runner::UnitFn),
        ("4x4", $f::<U4, U4> as $crate::runner::UnitFn),
        ("4x5", $f::<U4, U5> as $crate::runner::UnitFn),
        ("4x7", $f::<U4, U7> as $crate::runner::UnitFn),
        ("4x8", $f::<U4, U8> as $crate::runner::UnitFn),
        ("4x16", $f::<U4, U16> as $crate::runner::UnitFn),
        ("4x17", $f::<U4, U17> as $crate::runner::UnitFn),
        ("4x31", $f::<U4, U31> as $crate::runner::UnitFn),
        ("4x32", $f::<U4, U32> as $crate::runner::UnitFn),
        ("5x0", $f::<U5, U0> as $crate::runner::UnitFn),
        ("5x1", $f::<U5, U1> as $crate::runner::UnitFn),
        ("5x2", $f::<U5, U2> as $crate::runner::UnitFn),
        ("5x3", $f::<U5, U3> as $crate::runner::UnitFn),
        ("5x4", $f::<U5, U4> as $crate::runner::UnitFn),
        ("5x5", $f::<U5, U5> as $crate::runner::UnitFn),
        ("5x7", $f::<U5, U7> as $crate::runner::UnitFn),
        ("5x8", $f::<U5, U8> as $crate::runner::UnitFn),
        ("5x16", $f::<U5, U16> as $crate::runner::UnitFn),
        ("5x17", $f::<U5, U17> as $crate::runner::UnitFn),
        ("5x31", $f::<U5, U31> as $crate::runner::UnitFn),
        ("5x32", $f::<U5, U32> as $crate::runner::UnitFn),
        ("7x0", $f::<U7, U0> as $crate::runner::UnitFn),
        ("7x1", $f::<U7, U1> as $crate::runner::UnitFn),
        ("7x2", $f::<U7, U2> as $crate::runner::UnitFn),
        ("7x3", $f::<U7, U3> as $crate::runner::UnitFn),
        ("7x4", $f::<U7, U4> as $crate::runner::UnitFn),
        ("7x5", $f::<U7, U5> as $crate::runner::UnitFn),
        ("7x7", $f::<U7, U7> as $crate::runner::UnitFn),
        ("7x8", $f::<U7, U8> as $crate::runner::UnitFn),
        ("7x16", $f::<U7, U16> as $crate::runner::UnitFn),
        ("7x17", $f::<U7, U17> as $crate::runner::UnitFn),
        ("7x31", $f::<U7, U31> as $crate::runner::UnitFn),
        ("7x32", $f::<U7, U32> as $crate::runner::UnitFn),
        ("8x0", $f::<U8, U0> as $crate::runner::UnitFn),
        ("8x1", $f::<U8, U1> as $crate::runner::UnitFn),
        ("8x2", $f::<U8, U2> as $crate::runner::UnitFn),
        ("8x3", $f::<U8, U3> as $crate::runner::UnitFn),
        ("8x4", $f::<U8, U4> as $crate::runner::UnitFn),
        ("8x5", $f::<U8, U5> as $crate::runner::UnitFn),
        ("8x7", $f::<U8, U7> as $crate::runner::UnitFn),
        ("8x8", $f::<U8, U8> as $crate::runner::UnitFn),
        ("8x16", $f::<U8, U16> as $crate::runner::UnitFn),
        ("8x17", $f::<U8, U17> as $crate::runner::UnitFn),
        ("8x31", $f::<U8, U31> as $crate::runner::UnitFn),
        ("8x32", $f::<U8, U32> as $crate::runner::UnitFn),
        ("16x0", $f::<U16, U0> as $crate::runner::UnitFn),
        ("16x1", $f::<U16, U1> as $crate::runner::UnitFn),
        ("16x2", $f::<U16, U2> as $crate::runner::UnitFn),
        ("16x3", $f::<U16, U3> as $crate::runner::UnitFn),
        ("16x4", $f::<U16, U4> as $crate::runner::UnitFn),
        ("16x5", $f::<U16, U5> as $crate::runner::UnitFn),
        ("16x7", $f::<U16, U7> as $crate::runner::UnitFn),
        ("16x8", $f::<U16, U8> as $crate::runner::UnitFn),
        ("16x16", $f::<U16, U16> as $crate::runner::UnitFn),
        ("16x17", $f::<U16, U17> as $crate::runner::UnitFn),
        ("16x31", $f::<U16, U31> as $crate::runner::UnitFn),
        ("16x32", $f::<U16, U32> as $crate::runner::UnitFn),
        ("17x0", $f::<U17, U0> as $crate::runner::UnitFn),
        ("17x1", $f::<U17, U1> as $crate::runner::UnitFn),
        ("17x2", $f::<U17, U2> as $crate::runner::UnitFn),
        ("17x3", $f::<U17, U3> as $crate::runner::UnitFn),
        ("17x4", $f::<U17, U4> as $crate::runner::UnitFn),
        ("17x5", $f::<U17, U5> as $crate::runner::UnitFn),
        ("17x7", $f::<U17, U7> as $crate::runner::UnitFn),
        ("17x8", $f::<U17, U8> as $crate::runner::UnitFn),
        ("17x16", $f::<U17, U16> as $crate::runner::UnitFn),
        ("17x17", $f::<U17, U17> as $crate::runner::UnitFn),
        ("17x31", $f::<U17, U31> as $crate::runner::UnitFn),
        ("17x32", $f::<U17, U32> as $crate::runner::UnitFn),
        ("31x0", $f::<U31, U0> as $crate::runner::UnitFn),
        ("31x1", $f::<U31, U1> as $crate::runner::UnitFn),
        ("31x2", $f::<U31, U2> as $crate::runner::UnitFn),
        ("31x3", $f::<U31, U3> as $crate::runner::UnitFn),
        ("31x4", $f::<U31, U4> as $crate::runner::UnitFn),
        ("31x5", $f::<U31, U5> as $crate::runner::UnitFn),
        ("31x7", $f::<U31, U7> as $crate::runner::UnitFn),
        ("31x8", $f::<U31, U8> as $crate::runner::UnitFn),
        ("31x16", $f::<U31, U16> as $crate::runner::UnitFn),
        ("31x17", $f::<U31, U17> as $crate::runner::UnitFn),
        ("31x31", $f::<U31, U31> as $crate::runner::UnitFn),
        ("31x32", $f::<U31, U32> as $crate::runner::UnitFn),
        ("32x0", $f::<U32, U0> as $crate::runner::UnitFn),
        ("32x1", $f::<U32, U1> as $crate::runner::UnitFn),
        ("32x2", $f::<U32, U2> as $crate::runner::UnitFn),
        ("32x3", $f::<U32, U3> as $crate::runner::UnitFn),
        ("32x4", $f::<U32, U4> as $crate::runner::UnitFn),
        ("32x5", $f::<U32, U5> as $crate::runner::UnitFn),
        ("32x7", $f::<U32, U7> as $crate::runner::UnitFn),
        ("32x8", $f::<U32, U8> as $crate::runner::UnitFn),
        ("32x16", $f::<U32, U16> as $crate::runner::UnitFn),
        ("32x17", $f::<U32, U17> as $crate::runner::UnitFn),
        ("32x31", $f::<U32, U31> as $crate::runner::UnitFn),
        ("32x32", $f::<U32, U32> as $crate::runner::UnitFn),
    ] };
    ($f:ident, $e:ty) => { &[
        ("0x0", $f::<$e, U0, U0> as $crate::runner::UnitFn),
        ("0x1", $f::<$e, U0, U1> as $crate::runner::UnitFn),
        ("0x2", $f::<$e, U0, U2> as $crate::runner::UnitFn),
        ("0x3", $f::<$e, U0, U3> as $crate::runner::UnitFn),
        ("0x4", $f::<$e, U0, U4> as $crate::runner::UnitFn),
        ("0x5", $f::<$e, U0, U5> as $crate::runner::UnitFn),
        ("0x7", $f::<$e, U0, U7> as $crate::runner::UnitFn),
        ("0x8", $f::<$e, U0, U8> as $crate::runner::UnitFn),
        ("0x16", $f::<$e, U0, U16> as $crate::runner::UnitFn),
        ("0x17", $f::<$e, U0, U17> as $crate::runner::UnitFn),
        ("0x31", $f::<$e, U0, U31> as $crate::runner::UnitFn),
        ("0x32", $f::<$e, U0, U32> as $crate::runner::UnitFn),
        ("1x0", $f::<$e, U1, U0> as $crate::runner::UnitFn),
        ("1x1", $f::<$e, U1, U1> as $crate::runner::UnitFn),
        ("1x2", $f::<$e, U1, U2> as $crate::runner::UnitFn),
        ("1x3", $f::<$e, U1, U3> as $crate::runner::UnitFn),
        ("1x4", $f::<$e, U1, U4> as $crate::runner::UnitFn),
        ("1x5", $f::<$e, U1, U5> as $crate::runner::UnitFn),
        ("1x7", $f::<$e, U1, U7> as $crate::runner::UnitFn),
        ("1x8", $f::<$e, U1, U8> as $crate::runner::UnitFn),
        ("1x16", $f::<$e, U1, U16> as $crate::runner::UnitFn),
        ("1x17", $f::<$e, U1, U17> as $crate::runner::UnitFn),
        ("1x31", $f::<$e, U1, U31> as $crate::runner::UnitFn),
        ("1x32", $f::<$e, U1, U32> as $crate::runner::UnitFn),
        ("2x0", $f::<$e, U2, U0> as $crate::runner::UnitFn),
        ("2x1", $f::<$e, U2, U1> as $crate::runner::UnitFn),
        ("2x2", $f::<$e, U2, U2> as $crate::runner::UnitFn),
        ("2x3", $f::<$e, U2, U3> as $crate::runner::UnitFn),
        ("2x4", $f::<$e, U2, U4> as $crate::runner::UnitFn),
        ("2x5", $f::<$e, U2, U5> as $crate::runner::UnitFn),
        ("2x7", $f::<$e, U2, U7> as $crate::runner::UnitFn),
        ("2x8", $f::<$e, U2, U8> as $crate::runner::UnitFn),
        ("2x16", $f::<$e, U2, U16> as $crate::runner::UnitFn),
        ("2x17", $f::<$e, U2, U17> as $crate::runner::UnitFn),
        ("2x31", $f::<$e, U2, U31> as $crate::runner::UnitFn),
        ("2x32", $f::<$e, U2, U32> as $crate::runner::UnitFn),
        ("3x0", $f::<$e, U3, U0> as $crate::runner::UnitFn),
        ("3x1", $f::<$e, U3, U1> as $crate::runner::UnitFn),
        ("3x2", $f::<$e, U3, U2> as $crate::runner::UnitFn),
        ("3x3", $f::<$e, U3, U3> as $crate::runner::UnitFn),
        ("3x4", $f::<$e, U3, U4> as $crate::runner::UnitFn),
        ("3x5", $f::<$e, U3, U5> as $crate::runner::UnitFn),
        ("3x7", $f::<$e, U3, U7> as $crate::runner::UnitFn),
        ("3x8", $f::<$e, U3, U8> as $crate::runner::UnitFn),
        ("3x16", $f::<$e, U3, U16> as $crate::runner::UnitFn),
        ("3x17", $f::<$e, U3, U17> as $crate::runner::UnitFn),
        ("3x31", $f::<$e, U3, U31> as $crate::runner::UnitFn),
        ("3x32", $f::<$e, U3, U32> as $crate::runner::UnitFn),
        ("4x0", $f::<$e, U4, U0> as $crate::runner::UnitFn),
        ("4x1", $f::<$e, U4, U1> as $crate::runner::UnitFn),
        ("4x2", $f::<$e, U4, U2> as $crate::runner::UnitFn),
        ("4x3", $f::<$e, U4, U3> as $crate::runner::UnitFn),
        ("4x4", $f::<$e, U4, U4> as $crate::runner::UnitFn),
        ("4x5", $f::<$e, U4, U5> as $crate::runner::UnitFn),
        ("4x7", $f::<$e, U4, U7> as $crate::runner::UnitFn),
        ("4x8", $f::<$e, U4, U8> as $crate::runner::UnitFn),
        ("4x16", $f::<$e, U4, U16> as $crate::runner::UnitFn),
        ("4x17", $f::<$e, U4, U17> as $crate::runner::UnitFn),
        ("4x31", $f::<$e, U4, U31> as $crate::runner::UnitFn),
        ("4x32", $f::<$e, U4, U32> as $crate::runner::UnitFn),
        ("5x0", $f::<$e, U5, U0> as $crate::runner::UnitFn),
        ("5x1", $f::<$e, U5, U1> as $crate::runner::UnitFn),
        ("5x2", $f::<$e, U5, U2> as $crate::runner::UnitFn),
        ("5x3", $f::<$e, U5, U3> as $crate::runner::UnitFn),
        ("5x4", $f::<$e, U5, U4> as $crate::runner::UnitFn),
        ("5x5", $f::<$e, U5, U5> as $crate::runner::UnitFn),
        ("5x7", $f::<$e, U5, U7> as $crate::runner::UnitFn),
        ("5x8", $f::<$e, U5, U8> as $crate::runner::UnitFn),
        ("5x16", $f::<$e, U5, U16> as $crate::runner::UnitFn),
        ("5x17", $f::<$e, U5, U17> as $crate::runner::UnitFn),
        ("5x31", $f::<$e, U5, U31> as $crate::runner::UnitFn),
        ("5x32", $f::<$e, U5, U32> as $crate::runner::UnitFn),
        ("7x0", $f::<$e, U7, U0> as $crate::runner::UnitFn),
        ("7x1", $f::<$e, U7, U1> as $crate::runner::UnitFn),
        ("7x2", $f::<$e, U7, U2> as $crate::runner::UnitFn),
        ("7x3", $f::<$e, U7, U3> as $crate::runner::UnitFn),
        ("7x4", $f::<$e, U7, U4> as $crate::runner::UnitFn),
        ("7x5", $f::<$e, U7, U5> as $crate::runner::UnitFn),
        ("7x7", $f::<$e, U7, U7> as $crate::runner::UnitFn),
        ("7x8", $f::<$e, U7, U8> as $crate::runner::UnitFn),
        ("7x16", $f::<$e, U7, U16> as $crate::runner::UnitFn),
        ("7x17", $f::<$e, U7, U17> as $crate::runner::UnitFn),
        ("7x31", $f::<$e, U7, U31> as $crate::runner::UnitFn),
        ("7x32", $f::<$e, U7, U32> as $crate::runner::UnitFn),
        ("8x0", $f::<$e, U8, U0> as $crate::runner::UnitFn),
        ("8x1", $f::<$e, U8, U1> as $crate::runner::UnitFn),
        ("8x2", $f::<$e, U8, U2> as $crate::runner::UnitFn),
        ("8x3", $f::<$e, U8, U3> as $crate::runner::UnitFn),
        ("8x4", $f::<$e, U8, U4> as $crate::runner::UnitFn),
        ("8x5", $f::<$e, U8, U5> as $crate::runner::UnitFn),
        ("8x7", $f::<$e, U8, U7> as $crate::runner::UnitFn),
        ("8x8", $f::<$e, U8, U8> as $crate::runner::UnitFn),
        ("8x16", $f::<$e, U8, U16> as $crate::runner::UnitFn),
        ("8x17", $f::<$e, U8, U17> as $crate::runner::UnitFn),
        ("8x31", $f::<$e, U8, U31> as $crate::runner::UnitFn),
        ("8x32", $f::<$e, U8, U32> as $crate::runner::UnitFn),
        ("16x0", $f::<$e, U16, U0> as $crate::runner::UnitFn),
        ("16x1", $f::<$e, U16, U1> as $crate::runner::UnitFn),
        ("16x2", $f::<$e, U16, U2> as $crate::runner::UnitFn),
        ("16x3", $f::<$e, U16, U3> as $crate::runner::UnitFn),
        ("16x4", $f::<$e, U16, U4> as $crate::runner::UnitFn),
        ("16x5", $f::<$e, U16, U5> as $crate::runner::UnitFn),
        ("16x7", $f::<$e, U16, U7> as $crate::runner::UnitFn),
        ("16x8", $f::<$e, U16, U8> as $crate::runner::UnitFn),
        ("16x16", $f::<$e, U16, U16> as $crate::runner::UnitFn),
        ("16x17", $f::<$e, U16, U17> as $crate::runner::UnitFn),
        ("16x31", $f::<$e, U16, U31> as $crate::runner::UnitFn),
        ("16x32", $f::<$e, U16, U32> as $crate::runner::UnitFn),
        ("17x0", $f::<$e, U17, U0> as $crate::runner::UnitFn),
        ("17x1", $f::<$e, U17, U1> as $crate::runner::UnitFn),
        ("17x2", $f::<$e, U17, U2> as $crate::runner::UnitFn),
        ("17x3", $f::<$e, U17, U3> as $crate::runner::UnitFn),
        ("17x4", $f::<$e, U17, U4> as $crate::runner::UnitFn),
        ("17x5", $f::<$e, U17, U5> as $crate::runner::UnitFn),
        ("17x7", $f::<$e, U17, U7> as $crate::runner::UnitFn),
        ("17x8", $f::<$e, U17, U8> as $crate::runner::UnitFn),
        ("17x16", $f::<$e, U17, U16> as $crate::runner::UnitFn),
        ("17x17", $f::<$e, U17, U17> as $crate::runner::UnitFn),
        ("17x31", $f::<$e, U17, U31> as $crate::runner::UnitFn),
        ("17x32", $f::<$e, U17, U32> as $crate::runner::UnitFn),
        ("31x0", $f::<$e, U31, U0> as $crate::runner::UnitFn),
        ("31x1", $f::<$e, U31, U1> as $crate::runner::UnitFn),
        ("31x2", $f::<$e, U31, U2> as $crate::runner::UnitFn),
        ("31x3", $f::<$e, U31, U3> as $crate::runner::UnitFn),
        ("31x4", $f::<$e, U31, U4> as $crate::runner::UnitFn),
        ("31x5", $f::<$e, U31, U5> as $crate::runner::UnitFn),
        ("31x7", $f::<$e, U31, U7> as $crate::runner::UnitFn),
        ("31x8", $f::<$e, U31, U8> as $crate::runner::UnitFn),
        ("31x16", $f::<$e, U31, U16> as $crate::runner::UnitFn),
        ("31x17", $f::<$e, U31, U17> as $crate::runner::UnitFn),
        ("31x31", $f::<$e, U31, U31> as $crate::runner::UnitFn),
        ("31x32", $f::<$e, U31, U32> as $crate::runner::UnitFn),
        ("32x0", $f::<$e, U32, U0> as $crate::runner::UnitFn),
        ("32x1", $f::<$e, U32, U1> as $crate::runner::UnitFn),
        ("32x2", $f::<$e, U32, U2> as $crate::runner::UnitFn),
        ("32x3", $f::<$e, U32, U3> as $crate::runner::UnitFn),
        ("32x4", $f::<$e, U32, U4> as $crate::runner::UnitFn),
        ("32x5", $f::<$e, U32, U5> as $crate::runner::UnitFn),
        ("32x7", $f::<$e, U32, U7> as $crate::runner::UnitFn),
        ("32x8", $f::<$e, U32, U8> as $crate::runner::UnitFn),
        ("32x16", $f::<$e, U32, U16> as $crate::runner::UnitFn),
        ("32x17", $f::<$e, U32, U17> as $crate::runner::UnitFn),
        ("32x31", $f::<$e, U32, U31> as $crate::runner::UnitFn),
        ("32x32", $f::<$e, U32, U32> as $crate::runner::UnitFn),
    ] };
}

/// small shapes
#[macro_export]
macro_rules! dims_small_pairs {
    ($f:ident) => { &[
        ("0x0", $f::<U0, U0> as $crate::runner::UnitFn),
        ("0x1", $f::<U0, U1> as $crate::runner::UnitFn),
        ("0x2", $f::<U0, U2> as $crate::runner::UnitFn),
        ("0x3", $f::<U0, U3> as $crate::runner::UnitFn),
        ("0x4", $f::<U0, U4> as $crate::runner::UnitFn),
        ("0x5", $f::<U0, U5> as $crate::runner::UnitFn),
        ("1x0", $f::<U1, U0> as $crate::runner::UnitFn),
        ("1x1", $f::<U1, U1> as $crate::runner::UnitFn),
        ("1x2", $f::<U1, U2> as $crate::runner::UnitFn),
        ("1x3", $f::<U1, U3> as $crate::runner::UnitFn),
        ("1x4", $f::<U1, U4> as $crate::runner::UnitFn),
        ("1x5", $f::<U1, U5> as $crate::runner::UnitFn),
        ("2x0", $f::<U2, U0> as $crate::runner::UnitFn),
        ("2x1", $f::<U2, U1> as $crate::runner::UnitFn),
        ("2x2", $f::<U2, U2> as $crate::runner::UnitFn),
        ("2x3", $f::<U2, U3> as $crate::runner::UnitFn),
        ("2x4", $f::<U2, U4> as $crate::runner::UnitFn),
        ("2x5", $f::<U2, U5> as $crate::runner::UnitFn),
        ("3x0", $f::<U3, U0> as $crate::runner::UnitFn),
        ("3x1", $f::<U3, U1> as $crate::runner::UnitFn),
        ("3x2", $f::<U3, U2> as $crate::runner::UnitFn),
        ("3x3", $f::<U3, U3> as $crate::runner::UnitFn),
        ("3x4", $f::<U3, U4> as $crate::runner::UnitFn),
        ("3x5", $f::<U3, U5> as $crate::runner::UnitFn),
        ("4x0", $f::<U4, U0> as $crate::runner::UnitFn),
        ("4x1", $f::<U4, U1> as $crate::runner::UnitFn),
        ("4x2", $f::<U4, U2> as $crate::runner::UnitFn),
        ("4x3", $f::<U4, U3> as $crate::runner::UnitFn),
        ("4x4", $f::<U4, U4> as $crate::runner::UnitFn),
        ("4x5", $f::<U4, U5> as $crate::runner::UnitFn),
        ("5x0", $f::<U5, U0> as $crate::runner::UnitFn),
        ("5x1", $f::<U5, U1> as $crate::runner::UnitFn),
        ("5x2", $f::<U5, U2> as $crate::runner::UnitFn),
        ("5x3", $f::<U5, U3> as $crate::runner::UnitFn),
        ("5x4", $f::<U5, U4> as $crate::runner::UnitFn),
        ("5x5", $f::<U5, U5> as $crate::runner::UnitFn),
    ] };
    ($f:ident, $e:ty) => { &[
        ("0x0", $f::<$e, U0, U0> as $crate::runner::UnitFn),
        ("0x1", $f::<$e, U0, U1> as $crate::runner::UnitFn),
        ("0x2", $f::<$e, U0, U2> as $crate::runner::UnitFn),
        ("0x3", $f::<$e, U0, U3> as $crate::runner::UnitFn),
        ("0x4", $f::<$e, U0, U4> as $crate::runner::UnitFn),
        ("0x5", $f::<$e, U0, U5> as $crate::runner::UnitFn),
        ("1x0", $f::<$e, U1, U0> as $crate::runner::UnitFn),
        ("1x1", $f::<$e, U1, U1> as $crate::runner::UnitFn),
        ("1x2", $f::<$e, U1, U2> as $crate::runner::UnitFn),
        ("1x3", $f::<$e, U1, U3> as $crate::runner::UnitFn),
        ("1x4", $f::<$e, U1, U4> as $crate::runner::UnitFn),
        ("1x5", $f::<$e, U1, U5> as $crate::runner::UnitFn),
        ("2x0", $f::<$e, U2, U0> as $crate::runner::UnitFn),
        ("2x1", $f::<$e, U2, U1> as $crate::runner::UnitFn),
        ("2x2", $f::<$e, U2, U2> as $crate::runner::UnitFn),
        ("2x3", $f::<$e, U2, U3> as $crate::runner::UnitFn),
        ("2x4", $f::<$e, U2, U4> as $crate::runner::UnitFn),
        ("2x5", $f::<$e, U2, U5> as $crate::runner::UnitFn),
        ("3x0", $f::<$e, U3, U0> as $crate::runner::UnitFn),
        ("3x1", $f::<$e, U3, U1> as $crate::runner::UnitFn),
        ("3x2", $f::<$e, U3, U2> as $crate::runner::UnitFn),
        ("3x3", $f::<$e, U3, U3> as $crate::runner::UnitFn),
        ("3x4", $f::<$e, U3, U4> as $crate::runner::UnitFn),
        ("3x5", $f::<$e, U3, U5> as $crate::runner::UnitFn),
        ("4x0", $f::<$e, U4, U0> as $crate::runner::UnitFn),
        ("4x1", $f::<$e, U4, U1> as $crate::runner::UnitFn),
        ("4x2", $f::<$e, U4, U2> as $crate::runner::UnitFn),
        ("4x3", $f::<$e, U4, U3> as $crate::runner::UnitFn),
        ("4x4", $f::<$e, U4, U4> as $crate::runner::UnitFn),
        ("4x5", $f::<$e, U4, U5> as $crate::runner::UnitFn),
        ("5x0", $f::<$e, U5, U0> as $crate::runner::UnitFn),
        ("5x1", $f::<$e, U5, U1> as $crate::runner::UnitFn),
        ("5x2", $f::<$e, U5, U2> as $crate::runner::UnitFn),
        ("5x3", $f::<$e, U5, U3> as $crate::runner::UnitFn),
        ("5x4", $f::<$e, U5, U4> as $crate::runner::UnitFn),
        ("5x5", $f::<$e, U5, U5> as $crate::runner::UnitFn),
    ] };
}

/// all small triples
#[macro_export]
macro_rules! dims_small_triples {
    ($f:ident) => { &[
        ("0x0x0", $f::<U0, U0, U0> as $crate::runner::UnitFn),
        ("0x0x1", $f::<U0, U0, U1> as $crate::runner::UnitFn),
        ("0x0x2", $f::<U0, U0, U2> as $crate::runner::UnitFn),
        ("0x0x3", $f::<U0, U0, U3> as $crate::runner::UnitFn),
        ("0x0x4", $f::<U0, U0, U4> as $crate::runner::UnitFn),
        ("0x1x0", $f::<U0, U1, U0> as $crate::runner::UnitFn),
        ("0x1x1", $f::<U0, U1, U1> as $crate::runner::UnitFn),
        ("0x1x2", $f::<U0, U1, U2> as $crate::runner::UnitFn),
        ("0x1x3", $f::<U0, U1, U3> as $crate::runner::UnitFn),
        ("0x1x4", $f::<U0, U1, U4> as $crate::runner::UnitFn),
        ("0x2x0", $f::<U0, U2, U0> as $crate::runner::UnitFn),
        ("0x2x1", $f::<U0, U2, U1> as $crate::runner::UnitFn),
        ("0x2x2", $f::<U0, U2, U2> as $crate::runner::UnitFn),
        ("0x2x3", $f::<U0, U2, U3> as $crate::runner::UnitFn),
        ("0x2x4", $f::<U0, U2, U4> as $crate::runner::UnitFn),
        ("0x3x0", $f::<U0, U3, U0> as $crate::runner::UnitFn),
        ("0x3x1", $f::<U0, U3, U1> as $crate::runner::UnitFn),
        ("0x3x2", $f::<U0, U3, U2> as $crate::runner::UnitFn),
        ("0x3x3", $f::<U0, U3, U3> as $crate::runner::UnitFn),
        ("0x3x4", $f::<U0, U3, U4> as $crate::runner::UnitFn),
        ("0x4x0", $f::<U0, U4, U0> as $crate::runner::UnitFn),
        ("0x4x1", $f::<U0, U4, U1> as $crate::runner::UnitFn),
        ("0x4x2", $f::<U0, U4, U2> as $crate::runner::UnitFn),
        ("0x4x3", $f::<U0, U4, U3> as $crate::runner::UnitFn),
        ("0x4x4", $f::<U0, U4, U4> as $crate::runner::UnitFn),
        ("1x0x0", $f::<U1, U0, U0> as $crate::runner::UnitFn),
        ("1x0x1", $f::<U1, U0, U1> as $crate::runner::UnitFn),
        ("1x0x2", $f::<U1, U0, U2> as $crate::runner::UnitFn),
        ("1x0x3", $f::<U1, U0, U3> as $crate::runner::UnitFn),
        ("1x0x4", $f::<U1, U0, U4> as $crate::runner::UnitFn),
        ("1x1x0", $f::<U1, U1, U0> as $crate::runner::UnitFn),
        ("1x1x1", $f::<U1, U1, U1> as $crate::runner::UnitFn),
        ("1x1x2", $f::<U1, U1, U2> as $crate::runner::UnitFn),
        ("1x1x3", $f::<U1, U1, U3> as $crate::runner::UnitFn),
        ("1x1x4", $f::<U1, U1, U4> as $crate::runner::UnitFn),
        ("1x2x0", $f::<U1, U2, U0> as $crate::runner::UnitFn),
        ("1x2x1", $f::<U1, U2, U1> as $crate::runner::UnitFn),
        ("1x2x2", $f::<U1, U2, U2> as $crate::runner::UnitFn),
        ("1x2x3", $f::<U1, U2, U3> as $crate::runner::UnitFn),
        ("1x2x4", $f::<U1, U2, U4> as $crate::runner::UnitFn),
        ("1x3x0", $f::<U1, U3, U0> as $crate::runner::UnitFn),
        ("1x3x1", $f::<U1, U3, U1> as $crate::runner::UnitFn),
        ("1x3x2", $f::<U1, U3, U2> as $crate::runner::UnitFn),
        ("1x3x3", $f::<U1, U3, U3> as $crate::runner::UnitFn),
        ("1x3x4", $f::<U1, U3, U4> as $crate::runner::UnitFn),
        ("1x4x0", $f::<U1, U4, U0> as $crate::runner::UnitFn),
        ("1x4x1", $f::<U1, U4, U1> as $crate::runner::UnitFn),
        ("1x4x2", $f::<U1, U4, U2> as $crate::runner::UnitFn),
        ("1x4x3", $f::<U1, U4, U3> as $crate::runner::UnitFn),
        ("1x4x4", $f::<U1, U4, U4> as $crate::runner::UnitFn),
        ("2x0x0", $f::<U2, U0, U0> as $crate::runner::UnitFn),
        ("2x0x1", $f::<U2, U0, U1> as $crate::runner::UnitFn),
        ("2x0x2", $f::<U2, U0, U2> as $crate::runner::UnitFn),
        ("2x0x3", $f::<U2, U0, U3> as $crate::runner::UnitFn),
        ("2x0x4", $f::<U2, U0, U4> as $crate::runner::UnitFn),
        ("2x1x0", $f::<U2, U1, U0> as $crate::runner::UnitFn),
        ("2x1x1", $f::<U2, U1, U1> as $crate::runner::UnitFn),
        ("2x1x2", $f::<U2, U1, U2> as $crate::runner::UnitFn),
        ("2x1x3", $f::<U2, U1, U3> as $crate::runner::UnitFn),
        ("2x1x4", $f::<U2, U1, U4> as $crate::runner::UnitFn),
        ("2x2x0", $f::<U2, U2, U0> as $crate::runner::UnitFn),
        ("2x2x1", $f::<U2, U2, U1> as $crate::runner::UnitFn),
        ("2x2x2", $f::<U2, U2, U2> as $crate::runner::UnitFn),
        ("2x2x3", $f::<U2, U2, U3> as $crate::runner::UnitFn),
        ("2x2x4", $f::<U2, U2, U4> as $crate::runner::UnitFn),
        ("2x3x0", $f::<U2, U3, U0> as $crate::runner::UnitFn),
        ("2x3x1", $f::<U2, U3, U1> as $crate::runner::UnitFn),
        ("2x3x2", $f::<U2, U3, U2> as $crate::runner::UnitFn),
        ("2x3x3", $f::<U2, U3, U3> as $crate::runner::UnitFn),
        ("2x3x4", $f::<U2, U3, U4> as $crate::runner::UnitFn),
        ("2x4x0", $f::<U2, U4, U0> as $crate::runner::UnitFn),
        ("2x4x1", $f::<U2, U4, U1> as $crate::runner::UnitFn),
        ("2x4x2", $f::<U2, U4, U2> as $crate::runner::UnitFn),
        ("2x4x3", $f::<U2, U4, U3> as $crate::runner::UnitFn),
        ("2x4x4", $f::<U2, U4, U4> as $crate::runner::UnitFn),
        ("3x0x0", $f::<U3, U0, U0> as $crate::runner::UnitFn),
        ("3x0x1", $f::<U3, U0, U1> as $crate::runner::UnitFn),
        ("3x0x2", $f::<U3, U0, U2> as $crate::runner::UnitFn),
        ("3x0x3", $f::<U3, U0, U3> as $crate::runner::UnitFn),
        ("3x0x4", $f::<U3, U0, U4> as $crate::runner::UnitFn),
        ("3x1x0", $f::<U3, U1, U0> as $crate::runner::UnitFn),
        ("3x1x1", $f::<U3, U1, U1> as $crate::runner::UnitFn),
        ("3x1x2", $f::<U3, U1, U2> as $crate::runner::UnitFn),
        ("3x1x3", $f::<U3, U1, U3> as $crate::runner::UnitFn),
        ("3x1x4", $f::<U3, U1, U4> as $crate::runner::UnitFn),
        ("3x2x0", $f::<U3, U2, U0> as $crate::runner::UnitFn),
        ("3x2x1", $f::<U3, U2, U1> as $crate::runner::UnitFn),
        ("3x2x2", $f::<U3, U2, U2> as $crate::runner::UnitFn),
        ("3x2x3", $f::<U3, U2, U3> as $crate::runner::UnitFn),
        ("3x2x4", $f::<U3, U2, U4> as $crate::runner::UnitFn),
        ("3x3x0", $f::<U3, U3, U0> as $crate::runner::UnitFn),
        ("3x3x1", $f::<U3, U3, U1> as $crate::runner::UnitFn),
        ("3x3x2", $f::<U3, U3, U2> as $crate::runner::UnitFn),
        ("3x3x3", $f::<U3, U3, U3> as $crate::runner::UnitFn),
        ("3x3x4", $f::<U3, U3, U4> as $crate::runner::UnitFn),
        ("3x4x0", $f::<U3, U4, U0> as $crate::runner::UnitFn),
        ("3x4x1", $f::<U3, U4, U1> as $crate::runner::UnitFn),
        ("3x4x2", $f::<U3, U4, U2> as $crate::runner::UnitFn),
        ("3x4x3", $f::<U3, U4, U3> as $crate::runner::UnitFn),
        ("3x4x4", $f::<U3, U4, U4> as $crate::runner::UnitFn),
        ("4x0x0", $f::<U4, U0, U0> as $crate::runner::UnitFn),
        ("4x0x1", $f::<U4, U0, U1> as $crate::runner::UnitFn),
        ("4x0x2", $f::<U4, U0, U2> as $crate::runner::UnitFn),
        ("4x0x3", $f::<U4, U0, U3> as $crate::runner::UnitFn),
        ("4x0x4", $f::<U4, U0, U4> as $crate::runner::UnitFn),
        ("4x1x0", $f::<U4, U1, U0> as $crate::runner::UnitFn),
        ("4x1x1", $f::<U4, U1, U1> as $crate::runner::UnitFn),
        ("4x1x2", $f::<U4, U1, U2> as $crate::runner::UnitFn),
        ("4x1x3", $f::<U4, U1, U3> as $crate::runner::UnitFn),
        ("4x1x4", $f::<U4, U1, U4> as $crate::runner::UnitFn),
        ("4x2x0", $f::<U4, U2, U0> as $crate::runner::UnitFn),
        ("4x2x1", $f::<U4, U2, U1> as $crate::runner::UnitFn),
        ("4x2x2", $f::<U4, U2, U2> as $crate::runner::UnitFn),
        ("4x2x3", $f::<U4, U2, U3> as $crate::runner::UnitFn),
        ("4x2x4", $f::<U4, U2, U4> as $crate::runner::UnitFn),
        ("4x3x0", $f::<U4, U3, U0> as $crate::runner::UnitFn),
        ("4x3x1", $f::<U4, U3, U1> as $crate::runner::UnitFn),
        ("4x3x2", $f::<U4, U3, U2> as $crate::runner::UnitFn),
        ("4x3x3", $f::<U4, U3, U3> as $crate::runner::UnitFn),
        ("4x3x4", $f::<U4, U3, U4> as $crate::runner::UnitFn),
        ("4x4x0", $f::<U4, U4, U0> as $crate::runner::UnitFn),
        ("4x4x1", $f::<U4, U4, U1> as $crate::runner::UnitFn),
        ("4x4x2", $f::<U4, U4, U2> as $crate::runner::UnitFn),
        ("4x4x3", $f::<U4, U4, U3> as $crate::runner::UnitFn),
        ("4x4x4", $f::<U4, U4, U4> as $crate::runner::UnitFn),
    ] };
    ($f:ident, $e:ty) => { &[
        ("0x0x0", $f::<$e, U0, U0, U0> as $crate::runner::UnitFn),
        ("0x0x1", $f::<$e, U0, U0, U1> as $crate::runner::UnitFn),
        ("0x0x2", $f::<$e, U0, U0, U2> as $crate::runner::UnitFn),
        ("0x0x3", $f::<$e, U0, U0, U3> as $crate::runner::UnitFn),
        ("0x0x4", $f::<$e, U0, U0, U4> as $crate::runner::UnitFn),
        ("0x1x0", $f::<$e, U0, U1, U0> as $crate::runner::UnitFn),
        ("0x1x1", $f::<$e, U0, U1, U1> as $crate::runner::UnitFn),
        ("0x1x2", $f::<$e, U0, U1, U2> as $crate::runner::UnitFn),
        ("0x1x3", $f::<$e, U0, U1, U3> as $crate::runner::UnitFn),
        ("0x1x4", $f::<$e, U0, U1, U4> as $crate::runner::UnitFn),
        ("0x2x0", $f::<$e, U0, U2, U0> as $crate::runner::UnitFn),
        ("0x2x1", $f::<$e, U0, U2, U1> as $crate::runner::UnitFn),
        ("0x2x2", $f::<$e, U0, U2, U2> as $crate::runner::UnitFn),
        ("0x2x3", $f::<$e, U0, U2, U3> as $crate::runner::UnitFn),
        ("0x2x4", $f::<$e, U0, U2, U4> as $crate::runner::UnitFn),
        ("0x3x0", $f::<$e, U0, U3, U0> as $crate::runner::UnitFn),
        ("0x3x1", $f::<$e, U0, U3, U1> as $crate::runner::UnitFn),
        ("0x3x2", $f::<$e, U0, U3, U2> as $crate::runner::UnitFn),
        ("0x3x3", $f::<$e, U0, U3, U3> as $crate::runner::UnitFn),
        ("0x3x4", $f::<$e, U0, U3, U4> as $crate::runner::UnitFn),
        ("0x4x0", $f::<$e, U0, U4, U0> as $crate::runner::UnitFn),
        ("0x4x1", $f::<$e, U0, U4, U1> as $crate::runner::UnitFn),
        ("0x4x2", $f::<$e, U0, U4, U2> as $crate::runner::UnitFn),
        ("0x4x3", $f::<$e, U0, U4, U3> as $crate::runner::UnitFn),
        ("0x4x4", $f::<$e, U0, U4, U4> as $crate::runner::UnitFn),
        ("1x0x0", $f::<$e, U1, U0, U0> as $crate::runner::UnitFn),
        ("1x0x1", $f::<$e, U1, U0, U1> as $crate::runner::UnitFn),
        ("1x0x2", $f::<$e, U1, U0, U2> as $crate::runner::UnitFn),
        ("1x0x3", $f::<$e, U1, U0, U3> as $crate::runner::UnitFn),
        ("1x0x4", $f::<$e, U1, U0, U4> as $crate::runner::UnitFn),
        ("1x1x0", $f::<$e, U1, U1, U0> as $crate::runner::UnitFn),
        ("1x1x1", $f::<$e, U1, U1, U1> as $crate::runner::UnitFn),
        ("1x1x2", $f::<$e, U1, U1, U2> as $crate::runner::UnitFn),
        ("1x1x3", $f::<$e, U1, U1, U3> as $crate::runner::UnitFn),
        ("1x1x4", $f::<$e, U1, U1, U4> as $crate::runner::UnitFn),
        ("1x2x0", $f::<$e, U1, U2, U0> as $crate::runner::UnitFn),
        ("1x2x1", $f::<$e, U1, U2, U1> as $crate::runner::UnitFn),
        ("1x2x2", $f::<$e, U1, U2, U2> as $crate::runner::UnitFn),
        ("1x2x3", $f::<$e, U1, U2, U3> as $crate::runner::UnitFn),
        ("1x2x4", $f::<$e, U1, U2, U4> as $crate::runner::UnitFn),
        ("1x3x0", $f::<$e, U1, U3, U0> as $crate::runner::UnitFn),
        ("1x3x1", $f::<$e, U1, U3, U1> as $crate::runner::UnitFn),
        ("1x3x2", $f::<$e, U1, U3, U2> as $crate::runner::UnitFn),
        ("1x3x3", $f::<$e, U1, U3, U3> as $crate::runner::UnitFn),
        ("1x3x4", $f::<$e, U1, U3, U4> as $crate::runner::UnitFn),
        ("1x4x0", $f::<$e, U1, U4, U0> as $crate::runner::UnitFn),
        ("1x4x1", $f::<$e, U1, U4, U1> as $crate::runner::UnitFn),
        ("1x4x2", $f::<$e, U1, U4, U2> as $crate::runner::UnitFn),
        ("1x4x3", $f::<$e, U1, U4, U3> as $crate::runner::UnitFn),
        ("1x4x4", $f::<$e, U1, U4, U4> as $crate::runner::UnitFn),
        ("2x0x0", $f::<$e, U2, U0, U0> as $crate::runner::UnitFn),
        ("2x0x1", $f::<$e, U2, U0, U1> as $crate::runner::UnitFn),
        ("2x0x2", $f::<$e, U2, U0, U2> as $crate::runner::UnitFn),
        ("2x0x3", $f::<$e, U2, U0, U3> as $crate::runner::UnitFn),
        ("2x0x4", $f::<$e, U2, U0, U4> as $crate::runner::UnitFn),
        ("2x1x0", $f::<$e, U2, U1, U0> as $crate::runner::UnitFn),
        ("2x1x1", $f::<$e, U2, U1, U1> as $crate::runner::UnitFn),
        ("2x1x2", $f::<$e, U2, U1, U2> as $crate::runner::UnitFn),
        ("2x1x3", $f::<$e, U2, U1, U3> as $crate::runner::UnitFn),
        ("2x1x4", $f::<$e, U2, U1, U4> as $crate::runner::UnitFn),
        ("2x2x0", $f::<$e, U2, U2, U0> as $crate::runner::UnitFn),
        ("2x2x1", $f::<$e, U2, U2, U1> as $crate::runner::UnitFn),
        ("2x2x2", $f::<$e, U2, U2, U2> as $crate::runner::UnitFn),
        ("2x2x3", $f::<$e, U2, U2, U3> as $crate::runner::UnitFn),
        ("2x2x4", $f::<$e, U2, U2, U4> as $crate::runner::UnitFn),
        ("2x3x0", $f::<$e, U2, U3, U0> as $crate::runner::UnitFn),
        ("2x3x1", $f::<$e, U2, U3, U1> as $crate::runner::UnitFn),
        ("2x3x2", $f::<$e, U2, U3, U2> as $crate::runner::UnitFn),
        ("2x3x3", $f::<$e, U2, U3, U3> as $crate::runner::UnitFn),
        ("2x3x4", $f::<$e, U2, U3, U4> as $crate::runner::UnitFn),
        ("2x4x0", $f::<$e, U2, U4, U0> as $crate::runner::UnitFn),
        ("2x4x1", $f::<$e, U2, U4, U1> as $crate::runner::UnitFn),
        ("2x4x2", $f::<$e, U2, U4, U2> as $crate::runner::UnitFn),
        ("2x4x3", $f::<$e, U2, U4, U3> as $crate::runner::UnitFn),
        ("2x4x4", $f::<$e, U2, U4, U4> as $crate::runner::UnitFn),
        ("3x0x0", $f::<$e, U3, U0, U0> as $crate::runner::UnitFn),
        ("3x0x1", $f::<$e, U3, U0, U1> as $crate::runner::UnitFn),
        ("3x0x2", $f::<$e, U3, U0, U2> as $crate::runner::UnitFn),
        ("3x0x3", $f::<$e, U3, U0, U3> as $crate::runner::UnitFn),
        ("3x0x4", $f::<$e, U3, U0, U4> as $crate::runner::UnitFn),
        ("3x1x0", $f::<$e, U3, U1, U0> as $crate::runner::UnitFn),
        ("3x1x1", $f::<$e, U3, U1, U1> as $crate::runner::UnitFn),
        ("3x1x2", $f::<$e, U3, U1, U2> as $crate::runner::UnitFn),
        ("3x1x3", $f::<$e, U3, U1, U3> as $crate::runner::UnitFn),
        ("3x1x4", $f::<$e, U3, U1, U4> as $crate::runner::UnitFn),
        ("3x2x0", $f::<$e, U3, U2, U0> as $crate::runner::UnitFn),
        ("3x2x1", $f::<$e, U3, U2, U1> as $crate::runner::UnitFn),
        ("3x2x2", $f::<$e, U3, U2, U2> as $crate::runner::UnitFn),
        ("3x2x3", $f::<$e, U3, U2, U3> as $crate::runner::UnitFn),
        ("3x2x4", $f::<$e, U3, U2, U4> as $crate::runner::UnitFn),
        ("3x3x0", $f::<$e, U3, U3, U0> as $crate::runner::UnitFn),
        ("3x3x1", $f::<$e, U3, U3, U1> as $crate::runner::UnitFn),
        ("3x3x2", $f::<$e, U3, U3, U2> as $crate::runner::UnitFn),
        ("3x3x3", $f::<$e, U3, U3, U3> as $crate::runner::UnitFn),
        ("3x3x4", $f::<$e, U3, U3, U4> as $crate::runner::UnitFn),
        ("3x4x0", $f::<$e, U3, U4, U0> as $crate::runner::UnitFn),
        ("3x4x1", $f::<$e, U3, U4, U1> as $crate::runner::UnitFn),
        ("3x4x2", $f::<$e, U3, U4, U2> as $crate::runner::UnitFn),
        ("3x4x3", $f::<$e, U3, U4, U3> as $crate::runner::UnitFn),
        ("3x4x4", $f::<$e, U3, U4, U4> as $crate::runner::UnitFn),
        ("4x0x0", $f::<$e, U4, U0, U0> as $crate::runner::UnitFn),
        ("4x0x1", $f::<$e, U4, U0, U1> as $crate::runner::UnitFn),
        ("4x0x2", $f::<$e, U4, U0, U2> as $crate::runner::UnitFn),
        ("4x0x3", $f::<$e, U4, U0, U3> as $crate::runner::UnitFn),
        ("4x0x4", $f::<$e, U4, U0, U4> as $crate::runner::UnitFn),
        ("4x1x0", $f::<$e, U4, U1, U0> as $crate::runner::UnitFn),
        ("4x1x1", $f::<$e, U4, U1, U1> as $crate::runner::UnitFn),
        ("4x1x2", $f::<$e, U4, U1, U2> as $crate::runner::UnitFn),
        ("4x1x3", $f::<$e, U4, U1, U3> as $crate::runner::UnitFn),
        ("4x1x4", $f::<$e, U4, U1, U4> as $crate::runner::UnitFn),
        ("4x2x0", $f::<$e, U4, U2, U0> as $crate::runner::UnitFn),
        ("4x2x1", $f::<$e, U4, U2, U1> as $crate::runner::UnitFn),
        ("4x2x2", $f::<$e, U4, U2, U2> as $crate::runner::UnitFn),
        ("4x2x3", $f::<$e, U4, U2, U3> as $crate::runner::UnitFn),
        ("4x2x4", $f::<$e, U4, U2, U4> as $crate::runner::UnitFn),
        ("4x3x0", $f::<$e, U4, U3, U0> as $crate::runner::UnitFn),
        ("4x3x1", $f::<$e, U4, U3, U1> as $crate::runner::UnitFn),
        ("4x3x2", $f::<$e, U4, U3, U2> as $crate::runner::UnitFn),
        ("4x3x3", $f::<$e, U4, U3, U3> as $crate::runner::UnitFn),
        ("4x3x4", $f::<$e, U4, U3, U4> as $crate::runner::UnitFn),
        ("4x4x0", $f::<$e, U4, U4, U0> as $crate::runner::UnitFn),
        ("4x4x1", $f::<$e, U4, U4, U1> as $crate::runner::UnitFn),
        ("4x4x2", $f::<$e, U4, U4, U2> as $crate::runner::UnitFn),
        ("4x4x3", $f::<$e, U4, U4, U3> as $crate::runner::UnitFn),
        ("4x4x4", $f::<$e, U4, U4, U4> as $crate::runner::UnitFn),
    ] };
}

/// square sizes
#[macro_export]
macro_rules! dims_det {
    ($f:ident) => { &[
        ("1", $f::<U1> as $crate::runner::UnitFn),
        ("2", $f::<U2> as $crate::runner::UnitFn),
        ("3", $f::<U3> as $crate::runner::UnitFn),
        ("4", $f::<U4> as $crate::runner::UnitFn),
        ("5", $f::<U5> as $crate::runner::UnitFn),
        ("6", $f::<U6> as $crate::runner::UnitFn),
        ("7", $f::<U7> as $crate::runner::UnitFn),
        ("8", $f::<U8> as $crate::runner::UnitFn),
        ("9", $f::<U9> as $crate::runner::UnitFn),
        ("10", $f::<U10> as $crate::runner::UnitFn),
        ("11", $f::<U11> as $crate::runner::UnitFn),
        ("12", $f::<U12> as $crate::runner::UnitFn),
        ("13", $f::<U13> as $crate::runner::UnitFn),
        ("14", $f::<U14> as $crate::runner::UnitFn),
        ("15", $f::<U15> as $crate::runner::UnitFn),
        ("16", $f::<U16> as $crate::runner::UnitFn),
        ("17", $f::<U17> as $crate::runner::UnitFn),
        ("18", $f::<U18> as $crate::runner::UnitFn),
        ("19", $f::<U19> as $crate::runner::UnitFn),
        ("20", $f::<U20> as $crate::runner::UnitFn),
        ("21", $f::<U21> as $crate::runner::UnitFn),
        ("22", $f::<U22> as $crate::runner::UnitFn),
        ("23", $f::<U23> as $crate::runner::UnitFn),
        ("24", $f::<U24> as $crate::runner::UnitFn),
        ("25", $f::<U25> as $crate::runner::UnitFn),
        ("26", $f::<U26> as $crate::runner::UnitFn),
        ("27", $f::<U27> as $crate::runner::UnitFn),
        ("28", $f::<U28> as $crate::runner::UnitFn),
        ("29", $f::<U29> as $crate::runner::UnitFn),
        ("30", $f::<U30> as $crate::runner::UnitFn),
        ("31", $f::<U31> as $crate::runner::UnitFn),
        ("32", $f::<U32> as $crate::runner::UnitFn),
    ] };
    ($f:ident, $e:ty) => { &[
        ("1", $f::<$e, U1> as $crate::runner::UnitFn),
        ("2", $f::<$e, U2> as $crate::runner::UnitFn),
        ("3", $f::<$e, U3> as $crate::runner::UnitFn),
        ("4", $f::<$e, U4> as $crate::runner::UnitFn),
        ("5", $f::<$e, U5> as $crate::runner::UnitFn),
        ("6", $f::<$e, U6> as $crate::runner::UnitFn),
        ("7", $f::<$e, U7> as $crate::runner::UnitFn),
        ("8", $f::<$e, U8> as $crate::runner::UnitFn),
        ("9", $f::<$e, U9> as $crate::runner::UnitFn),
        ("10", $f::<$e, U10> as $crate::runner::UnitFn),
        ("11", $f::<$e, U11> as $crate::runner::UnitFn),
        ("12", $f::<$e, U12> as $crate::runner::UnitFn),
        ("13", $f::<$e, U13> as $crate::runner::UnitFn),
        ("14", $f::<$e, U14> as $crate::runner::UnitFn),
        ("15", $f::<$e, U15> as $crate::runner::UnitFn),
        ("16", $f::<$e, U16> as $crate::runner::UnitFn),
        ("17", $f::<$e, U17> as $crate::runner::UnitFn),
        ("18", $f::<$e, U18> as $crate::runner::UnitFn),
        ("19", $f::<$e, U19> as $crate::runner::UnitFn),
        ("20", $f::<$e, U20> as $crate::runner::UnitFn),
        ("21", $f::<$e, U21> as $crate::runner::UnitFn),
        ("22", $f::<$e, U22> as $crate::runner::UnitFn),
        ("23", $f::<$e, U23> as $crate::runner::UnitFn),
        ("24", $f::<$e, U24> as $crate::runner::UnitFn),
        ("25", $f::<$e, U25> as $crate::runner::UnitFn),
        ("26", $f::<$e, U26> as $crate::runner::UnitFn),
        ("27", $f::<$e, U27> as $crate::runner::UnitFn),
        ("28", $f::<$e, U28> as $crate::runner::UnitFn),
        ("29", $f::<$e, U29> as $crate::runner::UnitFn),
        ("30", $f::<$e, U30> as $crate::runner::UnitFn),
        ("31", $f::<$e, U31> as $crate::runner::UnitFn),
        ("32", $f::<$e, U32> as $crate::runner::UnitFn),
    ] };
}

/// small square sizes
#[macro_export]
macro_rules! dims_det_small {
    ($f:ident) => { &[
        ("1", $f::<U1> as $crate::runner::UnitFn),
        ("2", $f::<U2> as $crate::runner::UnitFn),
        ("3", $f::<U3> as $crate::runner::UnitFn),
        ("4", $f::<U4> as $crate::runner::UnitFn),
        ("5", $f::<U5> as $crate::runner::UnitFn),
        ("6", $f::<U6> as $crate::runner::UnitFn),
        ("7", $f::<U7> as $crate::runner::UnitFn),
    ] };
    ($f:ident, $e:ty) => { &[
        ("1", $f::<$e, U1> as $crate::runner::UnitFn),
        ("2", $f::<$e, U2> as $crate::runner::UnitFn),
        ("3", $f::<$e, U3> as $crate::runner::UnitFn),
        ("4", $f::<$e, U4> as $crate::runner::UnitFn),
        ("5", $f::<$e, U5> as $crate::runner::UnitFn),
        ("6", $f::<$e, U6> as $crate::runner::UnitFn),
        ("7", $f::<$e, U7> as $crate::runner::UnitFn),
    ] };
}

/// square sizes 8..=16
#[macro_export]
macro_rules! dims_det_mid {
    ($f:ident) => { &[
        ("8", $f::<U8> as $crate::runner::UnitFn),
        ("9", $f::<U9> as $crate::runner::UnitFn),
        ("10", $f::<U10> as $crate::runner::UnitFn),
        ("11", $f::<U11> as $crate::runner::UnitFn),
        ("12", $f::<U12> as $crate::runner::UnitFn),
        ("13", $f::<U13> as $crate::runner::UnitFn),
        ("14", $f::<U14> as $crate::runner::UnitFn),
        ("15", $f::<U15> as $crate::runner::UnitFn),
        ("16", $f::<U16> as $crate::runner::UnitFn),
    ] };
    ($f:ident, $e:ty) => { &[
        ("8", $f::<$e, U8> as $crate::runner::UnitFn),
        ("9", $f::<$e, U9> as $crate::runner::UnitFn),
        ("10", $f::<$e, U10> as $crate::runner::UnitFn),
        ("11", $f::<$e, U11> as $crate::runner::UnitFn),
        ("12", $f::<$e, U12> as $crate::runner::UnitFn),
        ("13", $f::<$e, U13> as $crate::runner::UnitFn),
        ("14", $f::<$e, U14> as $crate::runner::UnitFn),
        ("15", $f::<$e, U15> as $crate::runner::UnitFn),
        ("16", $f::<$e, U16> as $crate::runner::UnitFn),
    ] };
}

/// square sizes 17..=32
#[macro_export]
macro_rules! dims_det_big {
    ($f:ident) => { &[
        ("17", $f::<U17> as $crate::runner::UnitFn),
        ("18", $f::<U18> as $crate::runner::UnitFn),
        ("19", $f::<U19> as $crate::runner::UnitFn),
        ("20", $f::<U20> as $crate::runner::UnitFn),
        ("21", $f::<U21> as $crate::runner::UnitFn),
        ("22", $f::<U22> as $crate::runner::UnitFn),
        ("23", $f::<U23> as $crate::runner::UnitFn),
        ("24", $f::<U24> as $crate::runner::UnitFn),
        ("25", $f::<U25> as $crate::runner::UnitFn),
        ("26", $f::<U26> as $crate::runner::UnitFn),
        ("27", $f::<U27> as $crate::runner::UnitFn),
        ("28", $f::<U28> as $crate::runner::UnitFn),
        ("29", $f::<U29> as $crate::runner::UnitFn),
        ("30", $f::<U30> as $crate::runner::UnitFn),
        ("31", $f::<U31> as $crate::runner::UnitFn),
        ("32", $f::<U32> as $crate::runner::UnitFn),
    ] };
    ($f:ident, $e:ty) => { &[
        ("17", $f::<$e, U17> as $crate::runner::UnitFn),
        ("18", $f::<$e, U18> as $crate::runner::UnitFn),
        ("19", $f::<$e, U19> as $crate::runner::UnitFn),
        ("20", $f::<$e, U20> as $crate::runner::UnitFn),
        ("21", $f::<$e, U21> as $crate::runner::UnitFn),
        ("22", $f::<$e, U22> as $crate::runner::UnitFn),
        ("23", $f::<$e, U23> as $crate::runner::UnitFn),
        ("24", $f::<$e, U24> as $crate::runner::UnitFn),
        ("25", $f::<$e, U25> as $crate::runner::UnitFn),
        ("26", $f::<$e, U26> as $crate::runner::UnitFn),
        ("27", $f::<$e, U27> as $crate::runner::UnitFn),
        ("28", $f::<$e, U28> as $crate::runner::UnitFn),
        ("29", $f::<$e, U29> as $crate::runner::UnitFn),
        ("30", $f::<$e, U30> as $crate::runner::UnitFn),
        ("31", $f::<$e, U31> as $crate::runner::UnitFn),
        ("32", $f::<$e, U32> as $crate::runner::UnitFn),
    ] };
}

/// square sizes to 6
#[macro_export]
macro_rules! dims_det_six {
    ($f:ident) => { &[
        ("1", $f::<U1> as $crate::runner::UnitFn),
        ("2", $f::<U2> as $crate::runner::UnitFn),
        ("3", $f::<U3> as $crate::runner::UnitFn),
        ("4", $f::<U4> as $crate::runner::UnitFn),
        ("5", $f::<U5> as $crate::runner::UnitFn),
        ("6", $f::<U6> as $crate::runner::UnitFn),
    ] };
    ($f:ident, $e:ty) => { &[
        ("1", $f::<$e, U1> as $crate::runner::UnitFn),
        ("2", $f::<$e, U2> as $crate::runner::UnitFn),
        ("3", $f::<$e, U3> as $crate::runner::UnitFn),
        ("4", $f::<$e, U4> as $crate::runner::UnitFn),
        ("5", $f::<$e, U5> as $crate::runner::UnitFn),
        ("6", $f::<$e, U6> as $crate::runner::UnitFn),
    ] };
}

/// square sizes to 3
#[macro_export]
macro_rules! dims_det_three {
    ($f:ident) => { &[
        ("1", $f::<U1> as $crate::runner::UnitFn),
        ("2", $f::<U2> as $crate::runner::UnitFn),
        ("3", $f::<U3> as $crate::runner::UnitFn),
    ] };
    ($f:ident, $e:ty) => { &[
        ("1", $f::<$e, U1> as $crate::runner::UnitFn),
        ("2", $f::<$e, U2> as $crate::runner::UnitFn),
        ("3", $f::<$e, U3> as $crate::runner::UnitFn),
    ] };
}

/// square sizes 2..=7
#[macro_export]
macro_rules! dims_cof_small {
    ($f:ident) => { &[
        ("2", $f::<U2> as $crate::runner::UnitFn),
        ("3", $f::<U3> as $crate::runner::UnitFn),
        ("4", $f::<U4> as $crate::runner::UnitFn),
        ("5", $f::<U5> as $crate::runner::UnitFn),
        ("6", $f::<U6> as $crate::runner::UnitFn),
        ("7", $f::<U7> as $crate::runner::UnitFn),
    ] };
    ($f:ident, $e:ty) => { &[
        ("2", $f::<$e, U2> as $crate::runner::UnitFn),
        ("3", $f::<$e, U3> as $crate::runner::UnitFn),
        ("4", $f::<$e, U4> as $crate::runner::UnitFn),
        ("5", $f::<$e, U5> as $crate::runner::UnitFn),
        ("6", $f::<$e, U6> as $crate::runner::UnitFn),
        ("7", $f::<$e, U7> as $crate::runner::UnitFn),
    ] };
}

/// square sizes 2..=6
#[macro_export]
macro_rules! dims_cof_six {
    ($f:ident) => { &[
        ("2", $f::<U2> as $crate::runner::UnitFn),
        ("3", $f::<U3> as $crate::runner::UnitFn),
        ("4", $f::<U4> as $crate::runner::UnitFn),
        ("5", $f::<U5> as $crate::runner::UnitFn),
        ("6", $f::<U6> as $crate::runner::UnitFn),
    ] };
    ($f:ident, $e:ty) => { &[
        ("2", $f::<$e, U2> as $crate::runner::UnitFn),
        ("3", $f::<$e, U3> as $crate::runner::UnitFn),
        ("4", $f::<$e, U4> as $crate::runner::UnitFn),
        ("5", $f::<$e, U5> as $crate::runner::UnitFn),
        ("6", $f::<$e, U6> as $crate::runner::UnitFn),
    ] };
}
