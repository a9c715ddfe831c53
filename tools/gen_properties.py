#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the statements are easy to edit)."""
import json, os
S='strictpp/'
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":[S+f for f in files],"mechanism":[{"name":n,"where":S+w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":S+w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Dynamic 1D arrays follow a plain sequence model under every edit history",
 "After any sequence of constructions, copies, moves, swaps, assignments, compound assignments, resizes, resize-and-assigns, insertions and removals (single, counted, at front/back, last-relative and by index list), a dynamic one-dimensional array holds exactly the elements and size that the same edits give a plain sequence. A moved-from array is empty and reusable, an array assigned or moved onto itself is unchanged, and an array may be inserted or assigned into itself. This is the same for every element type and for aligned and unaligned storage, aligned non-empty storage always starting at a 64-byte boundary.",
 ["histories","inputs"],"every operation sequence up to a depth over every size, position and count of a small domain, two live objects, all element types and both alignments",
 "tests run a few fixed edit scripts on one or two sizes; they do not chain operations from arbitrary reached states",
 ["array_base1D.hpp","derived1D.hpp","derived_base.hpp","ArrayCommon/alignment.hpp"],
 [("grow/shrink via temporary and swap","array_base1D.hpp"),("compound assignment operators","derived_base.hpp")],
 [("data/size","owned storage and element count","array_base1D.hpp")])
p("C02","Dynamic 2D arrays follow a plain matrix model under every edit history",
 "After any sequence of constructions, copies, moves, swaps, assignments, resizes (including content-preserving ones), and insertions or removals of rows and columns (single, counted, front/back, last-relative, by index list), a dynamic two-dimensional array has exactly the shape and row-major content the same edits give a plain matrix. An array with no elements always reports zero rows, zero columns and zero size, and never a half-empty shape. Moving an array onto itself leaves it unchanged and a moved-from array is empty and reusable, for every element type and both alignments.",
 ["histories","inputs"],"every operation sequence up to a depth over every small shape, position and count, two live objects, all element types and both alignments",
 "tests run fixed edit scripts on a few shapes; row/column off-by-ones and stale dimensions only show for particular shapes and chains",
 ["array_base2D.hpp","derived2D.hpp","ArrayCommon/algorithm.hpp"],
 [("row/column insertion and removal through temporary and swap","array_base2D.hpp"),("row/column block copies","ArrayCommon/algorithm.hpp")],
 [("data/rows/cols","owned storage and shape","array_base2D.hpp")])
p("C03","Failed array operations change nothing and leak nothing",
 "When an operation on a dynamic array is rejected because of an invalid size, position, count, index or shape, or any allocation it makes fails, it throws and the target and every operand keep exactly their previous shape and content and remain fully usable. No storage is leaked or freed twice on any path, successful or failing.",
 ["fault_sequences","histories"],"every mutating operation from every reached small state, with every invalid argument of the domain and with the k-th allocation failing for every k",
 "tests check the strong guarantee for a handful of rejected calls and never inject an allocation failure",
 ["array_base1D.hpp","array_base2D.hpp","ArrayCommon/alignment.hpp","ArrayCommon/valid.hpp"],
 [("validate first, build temporary, then swap","array_base1D.hpp"),("validate first, build temporary, then swap","array_base2D.hpp")])
p("C04","Element access is bounds-checked everywhere and never reads outside",
 "Every checked element access (subscript, call and at, with plain, last-relative or row/column arguments) on every container, slice, view and expression returns the addressed element when the index is in range and otherwise raises an error without touching memory, for any index value up to the extremes of the index type. The at accessors keep checking when debug checks are compiled out. Sizes, row/column counts and empty flags always agree with the set of accepted indices.",
 ["inputs","programs","configurations"],"every index of a domain reaching beyond both ends and to the extremes of the index types, on every kind of array object of every small shape, in debug and release configuration",
 "tests probe a few out-of-range indices on dynamic arrays",
 ["derived1D.hpp","derived2D.hpp","ArrayCommon/valid.hpp","ArrayCommon/index_helper.hpp"],
 [("range assertions in operator[]/()/at","derived1D.hpp"),("range assertions in operator()/at","derived2D.hpp"),("last-relative index mapping","ArrayCommon/index_helper.hpp")])
p("C05","One-dimensional slices denote exactly the selected elements",
 "Slicing a one-dimensional array, expression or another slice by a range, a start/size/stride triple, an index list or vector, or a named selection (all, even, odd, reverse, skip-n, first-n, last-n, complement) yields exactly the selected elements in order, however deeply slices are nested, with any positive or negative valid stride. Writing or compound-assigning through a slice changes exactly those elements of the underlying array and nothing else. A selection that would leave the array is rejected and never yields an out-of-range view.",
 ["inputs","programs"],"every slice description over a small parameter domain (beyond both ends, plus extreme magnitudes), nested to depth 3, on every small size, read and write",
 "tests slice one array with a few descriptions; nesting, negative strides, empty results and extreme parameters are unsampled",
 ["slice.hpp","slicearray_base1D.hpp","ArrayCommon/valid.hpp","derived1D.hpp"],
 [("slice descriptors and validity","slice.hpp"),("index translation","slicearray_base1D.hpp")])
p("C06","Two-dimensional slices, blocks, diagonals and views denote the right elements",
 "Row, column, diagonal, block, row-set and column-set selections, general two-dimensional slices, flattening views and reshaping views of matrices, expressions and other slices address exactly the selected elements in row-major order, at any nesting. Writes through them change exactly those elements; a selection with no elements is an empty 0x0 object. Selections that do not fit are rejected and never yield an out-of-range view.",
 ["inputs","programs"],"every selection over a small parameter domain, nested to depth 2, on every small shape, read and write",
 "tests use a few selections on one or two shapes",
 ["slice.hpp","slicearray_base1D.hpp","slicearray_base2D.hpp","attach2D.hpp","derived2D.hpp"],
 [("index translation for 2D slices, rows, columns and diagonals","slicearray_base2D.hpp"),("flattening and reshaping","attach2D.hpp"),("factories","derived2D.hpp")])
p("C07","Lazy element-wise expressions equal eager element-wise evaluation",
 "Any composition of element-wise unary, binary, scalar, comparison-free logical, bitwise, shift, cast and user-supplied operations over arrays, slices and other expressions has the operand shape and, at each index, exactly the value obtained by applying the scalar operation to the operands' elements at that index, whether read element by element, assigned, compound-assigned, or used to construct an array. Evaluating an expression never modifies its operands, sees later changes of the operand arrays, and gives the same result every time. Operands of different shapes are rejected.",
 ["programs","inputs"],"every operation, and every composition of operations to depth 2-3, over operand kinds (array, slice, fixed array, expression), types and small shapes",
 "tests evaluate a few fixed formulas on one shape",
 ["Expr/binary.hpp","Expr/unary.hpp","Expr/functors.hpp","Expr/types.hpp","derived_base.hpp"],
 [("functors","Expr/functors.hpp"),("expression nodes","Expr/types.hpp"),("operators","Expr/binary.hpp")])
p("C08","Lazy objects never outlive what they refer to",
 "A slice, view or expression that is stored and used later is always valid as long as the named arrays it was built from are alive, even when intermediate slices and expressions were temporaries. Every attempt to build a slice, view, iterator or lazy expression that would refer to a temporary owning array is rejected at compile time. Copying a lazy object gives an independent object with the same value.",
 ["programs"],"every lazy factory x every kind of operand (owning array, fixed array, slice, expression; named or temporary; const or not), each compiled and, when accepted, executed after all temporaries have died",
 "tests exercise a few accepted programs within one full expression and a few rejected ones; dangling needs the temporary to die first",
 ["Expr/special.hpp","Expr/binary.hpp","Expr/unary.hpp","Expr/types.hpp","derived1D.hpp","derived2D.hpp","ArrayCommon/array_traits.hpp"],
 [("deleted rvalue overloads","Expr/unary.hpp"),("store slices and expressions by value, arrays by reference","Expr/types.hpp")])
p("C09","Structural expressions have the documented shape and content",
 "Merging (1D with arrays and scalars, horizontal and vertical), excluding elements (position, count, last-relative), transposing, row/column reducing and broadcasting, matrix-vector and tensor products, arithmetic sequences, linspace, index ranges, unit vectors, identity and constant arrays all have exactly the shape and element values of their definition for every operand shape, including empty and single-element ones. Incompatible shapes or parameters are rejected. The result is the same read lazily, through 1D or 2D indexing, or copied into an array (a tensor product with an empty factor has no elements).",
 ["inputs","programs"],"every operand shape in a small domain, every parameter value around the valid range, operands being arrays, slices or expressions",
 "tests check one shape per operation",
 ["Expr/special.hpp","Expr/binary.hpp","Expr/types.hpp"],
 [("structural expressions","Expr/special.hpp"),("index, sequence, reduce, broadcast and tensor nodes","Expr/types.hpp")])
p("C10","Reductions and predicates agree with their definition, empties included",
 "Sum, product, mean, minimum, maximum, their indices, dot product, norms, polynomial evaluation, equality, all/any/none predicates, sign, zero, finiteness, infinity and NaN tests return exactly what the definition gives over the elements of any array, slice or expression, extrema indices being the first occurrence. Arrays without elements give the documented neutral values or are rejected, depending on the operation, and operands of unequal size are rejected or, for equality, unequal.",
 ["inputs"],"every sequence up to a length over a value alphabet containing zeros, negatives, ties, infinities and NaN where meaningful, plus every length up to several block sizes",
 "tests evaluate each function on one or two arrays",
 ["array_ops.hpp","derived_base.hpp","ArrayCommon/algorithm.hpp"],
 [("reductions","array_ops.hpp"),("equality","array_ops.hpp")])
p("C11","Sorting, filtering and in-place traversal are exact",
 "Sorting in increasing or decreasing order permutes the elements of any array or slice into order and touches nothing outside it. Range and condition filters return exactly the elements, in original order, that satisfy the stated bounds or condition, and element-wise traversal visits every element exactly once in order. Shuffling only permutes.",
 ["inputs"],"every sequence up to a length over a small alphabet (all orders and ties), on arrays, slices and 2D arrays, every interval with bounds from the alphabet",
 "tests sort and filter one sample each",
 ["array_ops.hpp"],[("sort, filters, for_each, shuffle","array_ops.hpp")])
p("C12","Iterators form a checked random-access model of their range",
 "Iterators, reverse iterators, row and column iterators and index ranges of arrays, slices and expressions behave as random-access positions in the element sequence: any sequence of increments, jumps, differences, comparisons, dereferences and subscripts gives what index arithmetic gives, and mutable iterators write the addressed element. Dereferencing at a position outside the range is reported, not performed. Standard algorithms over them give the same result as over a plain sequence.",
 ["histories","inputs"],"every sequence of iterator operations up to a depth from every position of every small range, for every iterator kind",
 "tests walk each range forward once",
 ["iterator.hpp","derived1D.hpp","derived2D.hpp"],
 [("iterator classes","iterator.hpp"),("begin/end family","derived1D.hpp")])
p("C13","Strict scalars compute exactly like the built-in type, with errors reported",
 "For every supported scalar type, each arithmetic, bitwise, shift, comparison, logical, increment, compound-assignment and explicit-conversion operation yields exactly the value the built-in operation yields on the same type. Integer division and remainder by zero, and shifts with a negative operand, are reported instead of executed; non-negative size-like wrappers reject negative values.",
 ["inputs"],"every operand pair of the value alphabet (all 8-bit-range and boundary values) for every type and operator",
 "tests check a few values of a few types",
 ["StrictCommon/strict_val.hpp","StrictCommon/strict_val_ops.hpp","StrictCommon/auxiliary_types.hpp"],
 [("operators","StrictCommon/strict_val.hpp"),("casts","StrictCommon/strict_val.hpp"),("wrappers","StrictCommon/auxiliary_types.hpp")])
p("C14","Mixed-type and implicit conversions never compile",
 "No program that mixes two different scalar types in one arithmetic, comparison, assignment, construction or array operation, that implicitly converts between a strict scalar and another type, or that uses an operation undefined for the type (such as arithmetic on booleans or bitwise operators on floating point) is accepted; the same-type program and the explicit conversion are. This holds for scalars, arrays, slices and expressions alike.",
 ["programs"],"every operator and call form x every ordered pair of scalar types x operand kinds, decided by overload resolution",
 "tests check a few requires-expressions; the full type-pair matrix is not enumerated",
 ["StrictCommon/strict_val.hpp","StrictCommon/strict_val_ops.hpp","concepts.hpp","ArrayCommon/array_traits.hpp","Expr/binary.hpp"],
 [("deleted constructors and operators, same-type constraints","StrictCommon/strict_val.hpp"),("expression constraints","Expr/expr_traits.hpp")])
p("C15","Numeric helper functions meet their exact definitions",
 "Sign, absolute value, minimum, maximum, clamp, interval tests, squares, cubes, inverse, integer powers (negative exponents included), factorials, binomial coefficients and the standard elementary functions return the mathematically defined or built-in result for every argument in their domain and reject arguments outside it. Error-free transformations return a rounded sum or product and a correction term whose exact sum equals the exact result, for every pair of operands without overflow or underflow.",
 ["inputs"],"every argument tuple over alphabets that include signed zeros, boundary, subnormal and cancellation-prone values, all types",
 "tests sample a few arguments",
 ["StrictCommon/strict_math.hpp","Expr/functors.hpp"],
 [("scalar math","StrictCommon/strict_math.hpp")])
p("C16","Compensated algorithms keep their accuracy guarantee",
 "Compensated sums, means, dot products, products, norms and polynomial evaluations return a result within the compensated error bound of the exact value - as if computed in about twice the working precision and then rounded - for every input without overflow, however ill-conditioned, and for every length. When the exact result and all partial results are representable they are exact; lengths zero and one, and operands of unequal size, are handled as for the plain versions.",
 ["inputs"],"every sequence up to a length over an alphabet of widely scaled cancelling values, and every length across several block boundaries with structured content, against exact arithmetic",
 "tests compare a few sums with a tolerance",
 ["array_stable_ops.hpp","StrictCommon/strict_math.hpp"],
 [("compensated and blocked algorithms","array_stable_ops.hpp")])
p("C17","Printed values read back to the same values; bad input changes nothing",
 "Strict scalars, and 1D and 2D arrays and expressions of integers and doubles, written with the library's output operators or to a file at default formatting read back with the library's input operators to the same finite values and the same shape, whatever the target held before; the other floating types read back to the printed precision. Reading text that contains something other than numbers of the type, has rows of different lengths, or comes from a missing or failing file or stream is an error that leaves the target unchanged, and every number of an accepted text is stored.",
 ["inputs"],"every value of an alphabet and every array up to a small shape written and read back; every token string up to a length over a small alphabet of characters parsed and compared with a reference parser",
 "tests only print",
 ["array_IO.hpp","StrictCommon/strict_IO.hpp"],
 [("stream operators","array_IO.hpp"),("scalar stream operators","StrictCommon/strict_IO.hpp")])
p("C18","Random and semi-random generators stay in range, terminate and are reproducible",
 "Every generated scalar and array element lies within the requested closed interval, non-zero variants never return zero, and every call terminates, for every seed, size, type and interval of representable width that contains an admissible value. The seeded generators are a pure function of seed, size and build: the same request gives the same values. Invalid intervals are rejected.",
 ["inputs","histories"],"every seed residue class and build stamp of the seeded generator x every interval over small bounds; for the hardware-seeded generator, every entropy value of a small set supplied by the harness",
 "tests do not test the generators at all; a livelock needs a particular seed and interval",
 ["Util/random.hpp","Util/semi_random.hpp","Util/random_traits.hpp"],
 [("linear congruential state machine","Util/semi_random.hpp"),("standard-library generator wrappers","Util/random.hpp")])
p("C19","Build configuration never changes the result of a valid program",
 "A program all of whose operations are valid produces the same values whether debug checks are on or off, whether errors are exceptions or assertions, at every optimisation level, and for aligned or unaligned storage. With checks on, every invalid operation is stopped: by an exception in exception mode and by program termination in assertion mode, and never continues. The operations documented as always checked (at() and reading input) are stopped in every configuration, with debug checks off included.",
 ["configurations","programs"],"every configuration in the product of error mode, debug switch and optimisation level, running the same exhaustive catalogue of valid operations and of invalid operations",
 "tests are built in one configuration only",
 ["StrictCommon/error.hpp","StrictCommon/config.hpp"],
 [("assertion macros","StrictCommon/error.hpp")])
p("C20","Fixed-size arrays never change size and follow value semantics",
 "Fixed-size one- and two-dimensional arrays always hold exactly their declared number of elements; construction, copy, move, swap, and assignment from lists, scalars, arrays, slices and expressions give the same content as on a plain tuple, and any source of a different size is rejected leaving the target unchanged. Copies are independent of their source, and storage honours the declared alignment.",
 ["histories","inputs"],"every operation sequence up to a depth over two objects for every small declared size, all element types and both alignments",
 "tests run one script per operation",
 ["fixed_array_base1D.hpp","fixed_array_base2D.hpp"],
 [("fixed storage","fixed_array_base1D.hpp"),("fixed storage","fixed_array_base2D.hpp")])
p("C21","External buffers, BLAS-style access and Eigen maps alias the same data",
 "An array attached to external storage, the raw data pointers of arrays, and Eigen maps of arrays address exactly the underlying elements in row-major order: a write through either side is seen by the other and nothing outside is touched. Matrix products computed through Eigen equal the definition. Invalid sizes are rejected.",
 ["inputs","programs"],"every small shape and element type x every element position written from each side; every small matrix product over an alphabet",
 "tests attach one buffer; the Eigen headers are only parsed, never executed",
 ["attach1D.hpp","attach2D.hpp","array_ops.hpp","Eigen/map.hpp","Eigen/matrix_ops.hpp"],
 [("attached storage","attach1D.hpp"),("attached storage","attach2D.hpp"),("maps","Eigen/map.hpp")])
p("C22","Error metrics equal their definitions",
 "Absolute and relative errors, their maxima over arrays, and the tolerance tests return exactly what their definitions give for every pair of finite values or equally sized arrays, lists and slices, including zeros and empty arrays, and the tolerance tests are true exactly when the corresponding error is within the tolerance. Operands of unequal size and negative tolerances are rejected.",
 ["inputs"],"every pair of short sequences over a value alphabet x every tolerance of an alphabet",
 "tests check a handful of pairs",
 ["Util/error_tools.hpp"],[("error metrics","Util/error_tools.hpp")])
p("C23","Constant evaluation and run-time evaluation give the same result",
 "Every operation offered for constant evaluation in the language mode in use - scalar arithmetic, construction and editing of ordinary arrays, slicing, expressions, reductions, structural operations, algorithms and seeded generation - can be evaluated in a constant expression and gives exactly the value obtained at run time. Constant evaluation of a valid program involves no undefined behaviour. An invalid operation (out-of-range position, unequal sizes, undefined integer arithmetic, a literal that does not fit an integer type) is not a constant expression.",
 ["programs","configurations"],"an exhaustive catalogue of operations x small shapes and parameters evaluated by the compiler and compared with the same code at run time",
 "tests contain a few static assertions; they do not compare with run time across the domain",
 ["array_base1D.hpp","array_base2D.hpp","slice.hpp","Expr/types.hpp","array_ops.hpp","array_stable_ops.hpp","Util/semi_random.hpp"],
 [("constexpr storage","array_base1D.hpp"),("constexpr storage","array_base2D.hpp")])
p("C24","Oversized requests are rejected, never wrapped around",
 "A shape, position, count, index, stride or reshape request whose extent cannot be represented in the index type, or exceeds the array, is rejected with an error: it never wraps around into an object that appears valid. No such request performs an out-of-range access or changes any array.",
 ["inputs"],"every combination of arguments from an alphabet of extreme index values (0, +-1, powers of two up to the limit, limit-1, limit) for every shape-, slice-, insert-, remove-, exclude- and reshape-taking operation",
 "tests never use extreme index values",
 ["ArrayCommon/valid.hpp","slice.hpp","array_base1D.hpp","array_base2D.hpp","attach2D.hpp","Expr/special.hpp"],
 [("validity checks","ArrayCommon/valid.hpp"),("slice validity","slice.hpp")])
p("C25","Format settings alone decide the printed text",
 "After any sequence of format settings, a floating-point scalar or array element of each type is printed completely and correctly rounded in the notation and with the precision last set for that type, whatever was printed or set on the stream before, and the settings read back as set; reset restores the defaults, saved settings can be restored, and a negative precision is rejected. Integers and booleans print the same under every setting. Array layout settings only add index labels or join the elements of a one-dimensional object on one line: the elements, their order and the rows of a matrix stay the same.",
 ["histories","inputs"],"every history of setting calls up to a depth and every resulting state, observed through every type and print function, against the C library's rendering under the modelled settings",
 "tests never compare printed text",
 ["StrictCommon/strict_IO.hpp","array_IO.hpp"],
 [("scalar format object","StrictCommon/strict_IO.hpp"),("array layout object","array_IO.hpp")])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
    n=x['statement'].count('. ')+1
    assert n<=3,(x['id'],n)
print(len(P))
