#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
        why_tests_cant=why,anchors=dict(files=files,
        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))
V="src/vector.rs"; M="src/matrix/mod.rs"; A="src/matrix/arith.rs"; O="src/matrix/ops.rs"; I="src/matrix/iter.rs"

prop("C01","Elements are owned exactly once; no undefined behaviour in safe use",
 "Whatever safe operations are applied to vectors, matrices and their iterators, every element put into one is handed out or dropped exactly once when the containers and iterators are gone, and no element is ever read, cloned or dropped after it was handed out or dropped. If a caller-supplied closure, iterator, element operation or destructor panics part-way, elements may leak but none is dropped twice or used after being dropped. No such use performs undefined behaviour such as reading uninitialised or out-of-bounds memory.",
 ["histories","fault_sequences","inputs"],"all sequences of public operations over all lengths and shapes, element types with destructors, and a panic injected at any caller-supplied callback, clone, operator or drop",
 "The unit tests only use Copy integers and floats, so a double drop, leak or use after move has no observable effect in any of them, and none injects a panic.",
 [V,M,I,A,O],[("collecting constructor (partial-initialisation cleanup)",V+" FromIterator"),("by-value iterator and its Drop",V+" IntoIter"),("in-place updates by assignment",M+" clamp/transpose")],
 [("IntoIter.next/back","half-open range of elements still owned by the iterator",V)],["element constructors, clones and drops","Miri and address sanitizer reports"])
prop("C02","The by-value vector iterator behaves as a double-ended exact-size sequence",
 "For every interleaving of forward steps, backward steps, skips by any amount (also past the end), length and size-hint queries and terminal operations, the iterator that consumes a vector yields each element exactly once, the front ones in order and the back ones in reverse order, and then yields nothing for ever. At every moment its reported length and size hint equal the number of elements it will still yield, and a skip past the end exhausts it; no step panics.",
 ["histories","inputs"],"all lengths 0..=32, element types, and call histories",
 "One test takes nth(1) once and reverses once from fresh iterators; histories mixing both ends, or skipping past the end, are never run.",
 [V],[("next/next_back/nth/len/count",V+" impl Iterator, DoubleEndedIterator, ExactSizeIterator for IntoIter")],[("IntoIter.next/back","remaining range",V)],["values and lengths returned"])
prop("C03","Row and column iterators agree with the matrix under every call history",
 "The row and column iterators of a matrix (by value and by reference), and the element iterator of a by-reference column, yield exactly the rows, columns or entries of the matrix, forwards from the front and backwards from the back, each once, for every interleaving of next, next_back, nth (also past the end), count, last and length queries. At every moment the reported length and size hint equal the number of items still to come, exhausted iterators stay exhausted, no step panics, and asking for a column outside the matrix is rejected rather than read.",
 ["histories","inputs"],"all row and column counts 0..=32 including empty ones, all contents and call histories",
 "The test walks one 2x3 matrix front to back and reversed; lengths after backward steps, skipping past the end and empty shapes are not reached.",
 [I,M],[("RowsIter, ColsIter, RowsIterRef, ColsIterRef, ColsIterRefInner",I)],[("front/back","half-open range still to be yielded",I)],["values and lengths returned"])
prop("C04","Chunking and reshaping partition the elements in order",
 "Splitting a vector into chunks of a dividing length yields consecutive chunks that, concatenated in order, are the original vector, also when chunks are taken from both ends in any interleaving, with reported length always equal to the number of chunks left. Building a matrix from a flat vector fills it row by row, so that entry (i, j) is element i*columns+j, for every shape.",
 ["histories","inputs"],"all (length, dividing chunk length) pairs and shapes with at most 32 elements, all contents, all front/back interleavings",
 "One 6-by-2 split is tested from one end at a time; reshaping a flat vector into a matrix has no test.",
 [V,M],[("Chunks::next/next_back/size_hint",V),("From<Vector> for Matrix",M)],(),["chunks and entries returned"])
prop("C05","Collecting needs exactly the right number of elements",
 "Collecting an iterator into a vector of length N takes the iterator's first N items in order as elements 0..N; if the iterator ends early the call panics, having dropped every item it took, and no vector is produced, in every build. With debug assertions on, an iterator that yields more than N items is rejected by a panic too; otherwise the surplus never becomes part of the vector.",
 ["inputs","configurations"],"all lengths, supplied counts below, at and above the length, element types, iterator kinds, builds with and without debug assertions",
 "No test supplies a wrong number of elements, and tests run only with debug assertions on.",
 [V],[("FromIterator for Vector",V)],(),["returned vector, panic, drops"])
prop("C06","All access paths denote the same cells and out-of-range access panics",
 "For every vector and matrix, the value at a position is the same through run-time indexing, type-level indexing, slices, iterators, the inner array and construction (array constructor, generator called once per position in row-major order), and writing through any mutable path changes exactly that one position. Indexing with a run-time position outside the length or shape panics and never touches another element, and reported lengths, dimensions and emptiness equal the type's.",
 ["inputs"],"all lengths and shapes, all positions in and out of range including row/column overshoot that would stay inside the storage, all element types",
 "Tests index a handful of positions of 2x2 and 2x3 matrices and never out of range.",
 [V,M],[("Index/IndexMut for usize, typenum integers and pairs",V+", "+M),("as_slice, Deref, AsRef, iter, get_unchecked",V),("generate/new/into_inner/dim",V+", "+M)],(),["values, panics"])
prop("C07","Dimension errors do not compile; well-dimensioned programs do",
 "A program whose dimensions do not fit (adding or comparing different shapes, multiplying with different inner dimensions, a type-level index outside the length or shape including index 0 of something empty, determinant, inverse, power, identity or in-place transpose of a non-square matrix, cross product of non-3-vectors, chunk lengths that do not divide, wrong array lengths, minimum or maximum of something empty) does not compile. The corresponding well-dimensioned program compiles, its result has the mathematically expected shape, and vectors and matrices are copyable exactly when their elements are.",
 ["programs"],"all programs built from the public operations over dimensions 0..=32",
 "Unit tests can only contain programs that compile, so nothing tests rejection; acceptance is tested for a few small shapes.",
 [V,M,A,O,"src/util.rs","src/lib.rs"],[("trait bounds and associated output types on impls",V+", "+M+", "+A+", "+O),("type-level minimum","src/util.rs")],(),["compiler acceptance"])
prop("C08","Vector arithmetic is elementwise with operands in order",
 "For every two vectors of equal length, in every combination of owned and borrowed operands, addition and subtraction give the vector whose i-th element is the element operation applied to the i-th left and i-th right element in that order; negation, multiplication and division by a scalar apply to every element with the scalar on the right. The assigning forms leave the target equal to what the corresponding non-assigning form returns, and borrowed operands are unchanged.",
 ["inputs"],"all lengths, element and scalar types (also mixed types and non-commutative element operations), all values",
 "One test uses one pair of 3-vectors of i32, where operand order of addition and mixed element types are not observable.",
 [V],[("impl_vector_arith, AddAssign, SubAssign, Mul, Div, MulAssign, DivAssign, Neg",V)],(),["resulting elements"])
prop("C09","Matrix addition, subtraction, negation and scaling are entrywise",
 "For every two matrices of equal shape, in every combination of owned and borrowed operands, addition and subtraction give the matrix whose entry (i, j) is the element operation applied to the left and right entries (i, j) in that order; negation, multiplication and division by an owned or borrowed scalar apply to every entry with the scalar on the right. The assigning forms leave the target equal to what the non-assigning form returns, and borrowed operands are unchanged.",
 ["inputs"],"all shapes including non-square and empty, element types, all values",
 "Tests use a few 2x2 and 2x1 i32 matrices with mostly zero entries.",
 [A],[("impl_matrix_arith and the assigning operators",A)],(),["resulting entries"])
prop("C10","Matrix products are the sums of row-by-column products, in order",
 "The product of an L-by-N and an N-by-R matrix, in every combination of owned and borrowed operands and in the assigning form, is the L-by-R matrix whose entry (i, j) is the sum over k of left(i, k) times right(k, j) with the factors in that order (zero when N is zero); the product of a matrix and an owned or borrowed vector is the vector of sums of matrix(i, k) times vector(k). Products are therefore associative, distribute over addition and reverse under transposition over commutative elements.",
 ["inputs"],"all triples of dimensions including 0 and 1, element types including non-commutative rings, all values",
 "Tests multiply a few fixed 2x2 matrices over integers, where swapped factors or a wrong non-square stride are not observable.",
 [A],[("Mul<Matrix> (four forms), MulAssign<Matrix>, Mul<Vector>",A)],(),["resulting entries"])
prop("C11","Zero, identity, powers, diagonals, bounds and conjugates are the right matrices",
 "For every shape, the zero, minimum, maximum and default value have every entry equal to the element type's own, and a container is reported zero exactly when all entries are zero; the identity (also as the multiplicative one) is 1 on the diagonal and 0 elsewhere, and a diagonal matrix has the given elements in order on its diagonal and zeros elsewhere. The n-th power of a square matrix is the n-fold product with itself, with the identity for n = 0, and conjugation conjugates every entry and nothing else.",
 ["inputs"],"all shapes (diagonals also of non-square shapes), exponents, element types and values",
 "Tests check single 2x2 or 3x3 examples; exponents other than one identity power and rectangular diagonals are not covered.",
 [M,V],[("num::Zero/One/Bounded impls, identity, diag, pow, conjugate, Default",M+", "+V),("type-level minimum for diagonals","src/util.rs")],(),["resulting entries"])
prop("C12","Transposition, mapping and searching visit every entry at its own position",
 "The transpose of an R-by-C matrix is the C-by-R matrix with entry (j, i) equal to the original entry (i, j), the in-place transpose agrees with it and transposing twice restores the matrix. Mapping calls the function exactly once per entry with that entry's own position, in row-major order, and stores each result at that position; the all/any queries return exactly whether all/any entries satisfy the predicate, passing each visited entry with its own position, in row-major order up to the deciding entry.",
 ["inputs"],"all shapes, contents and predicates",
 "Transposition is tested on one 2x2 matrix; map, all and any only incidentally with the position ignored.",
 [M,I],[("transposed/transpose, map, all, any",M),("column iterator",I)],(),["entries, callback arguments"])
prop("C13","The determinant is exact over every field",
 "For every square matrix of size 1 or more over a field with exact arithmetic, the reported determinant equals the mathematical determinant, also for singular matrices and for matrices where elimination meets a zero pivot at any step. Consequently it is multiplicative, alternating in rows and columns, unchanged by transposition and by adding a multiple of one row to another, and 1 for the identity.",
 ["inputs"],"all sizes >= 1, all entries from exact fields (rationals, finite fields), in particular sparse and singular matrices",
 "Two closed forms and three 4x4/6x6 float examples are tested (one of them without asserting); zero pivots below the first and sizes beyond 6 are not.",
 [O],[("Determinant impls: closed forms for 1..3, elimination with row exchange above",O)],(),["determinant value"])
prop("C14","A cofactor is the signed minor of its position",
 "For every square matrix of size 2 or more over an exact field and every position, the cofactor is (-1)^(i+j) times the determinant of the matrix with that row and column removed, so that expanding along any row or column gives the determinant and expanding along a row with another row's cofactors gives zero. A position outside the matrix is rejected by a panic.",
 ["inputs"],"all sizes >= 2, all positions in and out of range, all entries",
 "Four cofactors of two fixed matrices (2x2 and 3x3) are tested; the generic implementation for larger sizes is never asserted.",
 [O],[("Cofactor impls",O)],(),["cofactor value, panic"])
prop("C15","The inverse exists exactly for invertible matrices and is the inverse",
 "For every square matrix of size 1 or more over a field with exact arithmetic, inversion returns a matrix exactly when the determinant is non-zero, wherever zeros sit in the matrix, and the returned matrix multiplied with the original on either side gives the identity.",
 ["inputs"],"all sizes >= 1, all invertible and singular matrices over exact fields, including permutation-like and sparse ones",
 "Three invertible matrices with non-zero pivots are tested; no singular matrix and no invertible one that needs a row exchange.",
 [O],[("Inverse impls: closed forms for 1..3, Gauss-Jordan above",O)],(),["Some/None and the returned matrix"])
prop("C16","Floating-point determinants and inverses are accurate when well conditioned",
 "For every row diagonally dominant floating-point matrix of any size and moderate magnitude, the determinant is within a small relative error of the true determinant, and the inverse exists and its product with the matrix is within a small error of the identity. Matrices with small integer entries whose elimination stays exact give exact determinants.",
 ["inputs"],"all sizes 1..=32, f32 and f64, diagonally dominant matrices and exactly representable unit-triangular products",
 "One 6x6 float determinant is asserted; no float inverse is.",
 [O],[("Determinant and Inverse impls on floats",O)],(),["determinant and inverse values"])
prop("C17","Sums, dot, cross and norms follow their definitions",
 "For every vector the sum adds every element once, the dot product adds the products of corresponding elements with the left vector's factor first, the norm is the square root of the sum of squares and the normalised vector is the vector divided by its norm; the cross product of 3-vectors follows the right-hand formula, so it is antisymmetric and orthogonal to both operands. The sum of a matrix adds every entry once, and empty sums are zero.",
 ["inputs"],"all lengths and shapes, element types including non-commutative ones, all values",
 "Each is tested on a single 2- or 3-vector or a 2x2 matrix.",
 [V,M],[("sum, dot, cross, norm, normalized",V),("Matrix::sum",M)],(),["returned values"])
prop("C18","Minimum, maximum and clamping respect the ordering everywhere",
 "For every non-empty vector and every non-empty square matrix, max, min, max_by and min_by return an element of the container that no other element exceeds or undercuts under the element order or the supplied comparison, wherever it sits. Clamping to an interval, in place or by copy, replaces exactly the elements below the lower bound by that bound and those above the upper bound by that one, leaving all others and all positions unchanged.",
 ["inputs"],"all lengths and square shapes, values with ties and extremes, total orders and comparison functions, all intervals min <= max",
 "Single 3-element and 2x2 examples are tested.",
 [V,M],[("max, min, max_by, min_by, clamp, clamped",V+", "+M)],(),["returned elements"])
prop("C19","Display draws an aligned grid that shows every entry",
 "Displaying a matrix with at least one row and column draws every entry's complete text, in its row and column position, in a bracketed grid: opening and closing corner pieces on the first and last line and sides in between, with all lines of equal display width, every column as wide as its widest entry, entries centred (the odd space on the right) and one space between columns. Multi-line entries, wide and zero-width characters, empty entries and nested matrices keep this alignment, and displaying never panics.",
 ["inputs"],"all shapes, entry types and entry texts including empty, multi-line, wide-character and nested ones",
 "One 2x2 integer matrix and one nested example are tested.",
 [M],[("Display for Matrix",M)],[("ws, hs","column widths and row heights",M)],["formatted text"])
prop("C20","Equality, cloning, defaults and approximate equality are entrywise",
 "Two vectors or matrices of one shape are equal exactly when all corresponding entries are equal, also for mixed element types of vectors, and a clone is equal to its original and independent of it. Approximate equality (relative or ulps) holds exactly when it holds for every pair of corresponding entries with the same tolerances, and its default tolerances are the element type's.",
 ["inputs"],"all lengths and shapes, positions of a single difference, element types, tolerances",
 "Equality is only used through assert_eq on equal values, inequality is barely tested and approximate equality of matrices is not tested at all.",
 [V,M],[("PartialEq, Clone for Vector and Matrix",V+", "+M),("ApproxEq for Matrix",M)],(),["returned booleans"])
prop("C21","Debug formatting shows every entry and never panics",
 "Debug-formatting a vector gives 'Vector' followed by the list of its elements' debug texts, and debug-formatting a matrix gives 'Matrix[' followed by the rows' lists separated by ', ' and ']', for every length and shape including empty ones, in every build.",
 ["inputs","configurations"],"all lengths and shapes including zero rows or columns, element types and values",
 "One 2x2 example is tested; empty shapes are not.",
 [V,M],[("Debug for Vector and Matrix",V+", "+M)],(),["formatted text"])
prop("C22","Macros and type aliases build what they spell",
 "A vector or matrix literal written with the macros has exactly the written number of elements, rows and columns, evaluates each element expression once in order and places it where it is written, for every size up to the supported maximum, any kind of element expression, and from any crate importing the macros. Every alias in the prelude denotes the vector or matrix type with the size and element type in its name.",
 ["programs"],"all macro invocations from 0 to 32 elements and shapes, all element expressions; all prelude aliases",
 "Tests expand the macros for a few literal lists of at most six elements; aliases are used for one shape.",
 ["src/macros.rs","src/prelude.rs"],[("counting rules of vector! and matrix!","src/macros.rs"),("type aliases","src/prelude.rs")],(),["types and values of the expansions"])
prop("C23","Containers are plain inline arrays and computing with them allocates nothing",
 "A vector of N elements has the size and alignment of an array of N elements and a matrix those of the nested array, laid out row by row, so a container lives wherever its owner puts it. No vector or matrix operation on plain elements other than displaying allocates heap memory.",
 ["inputs","configurations"],"all lengths and shapes, element types, all non-displaying operations",
 "No test observes size, layout or allocation.",
 [V,M,"src/lib.rs"],[("Vector(N::Array), Matrix(Vector<Vector>)",V+", "+M)],(),["size_of, align_of, global allocator calls"])
prop("C24","Results do not depend on build configuration",
 "For all inputs that violate no precondition, every operation other than displaying gives bit-identical results, panics and element drops with and without the standard library, unicode-width and drop-optimisation features, and in debug and release builds; with the standard library but without unicode-width, displaying matrices of plain ASCII entries is unchanged as well.",
 ["configurations","inputs","histories"],"all feature combinations and both build profiles, generated inputs and histories over all operations",
 "The tests run in exactly one configuration (default features, debug).",
 ["Cargo.toml","src/lib.rs",V,M],[("cfg attributes and feature-dependent code","src/lib.rs, "+M),("debug assertions",V+", "+I)],(),["digest of all results"])
prop("C25","Borrowing, ownership and thread rules hold at compile time",
 "Safe code cannot keep a reference, or an iterator that borrows, into a vector or matrix while that is mutated, moved, dropped or out of scope, cannot use one after handing it over unless its elements are Copy, cannot duplicate elements that are not Clone or change anything through a shared reference, cannot use the unchecked accessors or provide storage outside of unsafe, and can send or share containers and iterators across threads only where their elements allow it: such programs do not compile. Programs that respect these rules compile; in particular, what a borrowing iterator gave out can be used for as long as the matrix is there, after the iterator is gone.",
 ["programs"],"all programs over the public types and operations, all element types",
 "Unit tests can only contain programs that compile, and run in one thread.",
 [V,M,I],[("lifetimes in the signatures of accessors, iterators and their items",V+", "+M+", "+I),("auto traits of IntoIter, Chunks and the row and column iterators",V+", "+I),("Clone and Copy bounds",V+", "+M+", "+I),("unsafe on get_unchecked and ArrayLen",V)],(),["compiler acceptance"])
prop("C26","Operations are offered for every element type that can back them",
 "Every operation is offered for every element type having the operations its result is defined by: none additionally demands Copy, Clone, Default, Debug, an ordering, 'static or thread safety that its definition does not need, and vector addition, subtraction, scaling and comparison accept operands of different element types wherever the elements combine, giving the elements' result type. Conversely a container claims a total equality, copying, cloning, a default or debug output only if its elements have it.",
 ["programs"],"all operations over all element types, including generic ones, references, and types owning resources; all dimensions",
 "Tests instantiate operations with i32, f32, f64 and a few Ratio types, which have every capability at once.",
 [V,M,A,O,I],[("where clauses of all impls",V+", "+M+", "+A+", "+O+", "+I)],(),["compiler acceptance"])
prop("C27","The work of an operation is bounded by the shape",
 "Whatever values its operands have, every operation ends after a number of element operations (arithmetic, comparisons, copies, formatting, calls of a given function) that is at most a small constant times what its definition needs for the shape. That is one per entry for construction, elementwise operations, comparison, searching, ordering, sums, mapping, transposition and formatting, also when containers are nested; L times N times R for a product; the cube of the size for a determinant, a cofactor and an inverse; and a logarithm of the exponent many products for a power.",
 ["inputs"],"all operations, lengths and shapes, exponents and values, in particular sparse, singular and constant ones",
 "The unit tests use sizes up to 6, where factorial or exponential work is not noticed, and never count operations.",
 [O,M,V,A],[("Determinant (elimination with row exchange), Cofactor, Inverse",O),("pow",M),("Display, max/min, comparisons of nested containers",M+", "+V),("products",A)],(),["number of element operations performed"])
prop("C28","The result of an operation depends on its operands alone",
 "The result of every operation is determined by the values of its operands and the functions given to it: it is the same each time, whatever operations ran before it, were cut short by a panic before it, are begun inside it by its own elements, by a function given to it or by the writer it is formatted to, or run at the same time in other threads. Operands taken by reference have the same value afterwards.",
 ["histories","schedules","fault_sequences"],"all operations and values, histories of operations, nestings, interruptions by panics, and interleavings of threads",
 "Unit tests run each operation once, alone, with elements that do nothing else; state kept between or shared among operations does not show.",
 [M,V,A,O,I],[("operations keep no state: generate, all, any, map, Display, Cofactor, Determinant",M+", "+O)],(),["results, operands afterwards"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for p in P:
    jsonschema.validate(p,s)
    n=p["statement"].count(". ")+1
    assert n<=3,(p["id"],n)
print(len(P))
