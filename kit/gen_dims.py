#!/usr/bin/env python3
# Generates src/dims.rs: macros that list instantiations of a generic function over dimensions.
out=["//! Generated by gen_dims.py. Each macro expands to an array of (name, unit function).",""]
U=lambda n:"$crate::u!(%d)"%n
def mac(name, items, doc):
    out.append("/// "+doc)
    out.append("#[macro_export]\nmacro_rules! %s {"%name)
    for pre in (False, True):
        g="$e, " if pre else ""
        out.append("    ($f:ident%s) => { &["%(", $e:ty" if pre else ""))
        for it in items:
            out.append("        (\"%s\", $f::<%s%s> as $crate::runner::UnitFn),"%("x".join(map(str,it)), g, ", ".join("U%d"%x for x in it)))
        out.append("    ] };")
    out.append("}\n")
def cb(name, items, doc):
    """items: tuples of dimensions; the callback gets the type-level numbers, then the plain ones."""
    out.append("/// "+doc)
    out.append("#[macro_export]\nmacro_rules! %s {\n    ($m:ident) => { &["%name)
    for it in items:
        out.append("        (\"%s\", $m!(%s; %s)),"%("x".join(map(str,it)), ", ".join("U%d"%x for x in it), ", ".join(map(str,it))))
    out.append("    ] };\n}\n")
R=range(33)
import random
rnd=random.Random(7)
edge=[0,1,2,3,4,5,7,8,16,17,31,32]
spread=[(a,b) for a in R for b in R if (a in edge and b in edge) or a==b or (7*a+3*b)%13==0 or (a,b) in [(1,b),(a,1)]]
mac("dims_spread_pairs",spread,"shapes with an edge-case dimension or square")
cb("cb_n",[(n,) for n in R],"all lengths")
cb("cb_n1",[(n,) for n in R if n],"all lengths but 0")
cb("cb_pairs",[(a,b) for a in R for b in R],"all shapes")
cb("cb_spread_pairs",spread,"shapes with an edge-case dimension or square")
few_=[0,1,2,3,4,5,7,8,16,17,31,32]
cb("cb_few_pairs",[(a,b) for a in few_ for b in few_],"a spread of shapes")
cb("cb_index",[(n,i) for n in R for i in range(n)],"length and index below it")
# (rows, columns, row, column): every (rows, row) and every (columns, column) occurs, with many zeros
ri=[(n,i) for n in R for i in range(n)]
cj=ri[:]; rnd.shuffle(cj)
quads={(r,c,i,j) for (r,i),(c,j) in zip(ri,cj)}
for n in range(1,33):
    for m in (1,2,3,rnd.randint(1,32),rnd.randint(1,32)):
        quads|={(n,m,0,0),(n,m,n-1,0),(n,m,0,m-1),(m,n,0,n-1),(m,n,m-1,0),(n,m,n-1,m-1)}
cb("cb_index2",sorted(quads),"shape and position inside it")
mac("dims_n",[(n,) for n in R],"all lengths")
mac("dims_n1",[(n,) for n in R if n],"all lengths but 0")
mac("dims_n2",[(n,) for n in R if n>1],"all lengths from 2")
mac("dims_pairs",[(a,b) for a in R for b in R],"all shapes")
mac("dims_triples",[(i,j,(i+j)%33) for i in R for j in R],"triples covering all pairs of coordinates (Latin square)")
r3=random.Random(11)
mid3={(a,b,c) for a in range(4) for b in range(4) for c in range(4)}|{(a,b,r3.randint(0,32)) for a in edge for b in edge if r3.random()<.5}|{(a,r3.randint(1,32),b) for a in edge for b in edge if r3.random()<.5}|{(n,n,n) for n in R}|{(r3.randint(0,32),a,b) for a in edge for b in edge if r3.random()<.5}
mac("dims_spread_triples",sorted(mid3),"a spread of triples")
mac("dims_div",[(n,i) for n in R for i in R if i and n%i==0],"length and dividing chunk length")
mac("dims_flat",[(r,c) for r in R for c in R if c and r*c<=32],"shapes with at most 32 elements and a column")
few=[0,1,2,3,4,5,7,8,16,17,31,32]
mac("dims_small",[(n,) for n in range(6)],"small lengths")
mac("dims_few",[(n,) for n in few],"a spread of lengths")
mac("dims_few_pairs",[(a,b) for a in few for b in few],"a spread of shapes")
sm=[0,1,2,3,4,5]
mac("dims_small_pairs",[(a,b) for a in sm for b in sm],"small shapes")
mac("dims_small_triples",[(a,b,c) for a in range(5) for b in range(5) for c in range(5)],"all small triples")
mac("dims_det",[(n,) for n in range(1,33)],"square sizes")
mac("dims_det_small",[(n,) for n in range(1,8)],"small square sizes")
mac("dims_det_mid",[(n,) for n in range(8,17)],"square sizes 8..=16")
mac("dims_det_big",[(n,) for n in range(17,33)],"square sizes 17..=32")
mac("dims_det_six",[(n,) for n in range(1,7)],"square sizes to 6")
mac("dims_det_three",[(n,) for n in range(1,4)],"square sizes to 3")
mac("dims_cof_small",[(n,) for n in range(2,8)],"square sizes 2..=7")
mac("dims_cof_six",[(n,) for n in range(2,7)],"square sizes 2..=6")
open("src/dims.rs","w").write("\n".join(out))
