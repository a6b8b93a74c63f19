"""The properties, their statements and anchors. tools/mk.py writes properties.jsonl and MANIFEST.json from this table."""


def P(id, title, statement, over, text, why, files, mech, level_note=None, na=None, technique=None):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, level_note=level_note, na=na, technique=technique)


VN = "static: gated value numbering (abstract interpretation of compiler THIR) compared with an independent specification"
VNOTE = ("Decides equality of value-graph normal forms between the type-checked code and a specification written against plain arrays, with symbolic inputs and concrete "
         "dimensions, for every entry point the property covers; nothing is executed and no path is handed to a solver. Trusted: rustc's THIR and trait resolution, the models of "
         "core/alloc primitives in engine/, ring or field laws of the scalar where the statement allows them. Floating-point rounding is abstracted; dimensions beyond the "
         "instantiated ones (evidence: samples) are not covered.")

AUD = "static: abstract interpretation of compiler THIR over every public function, deciding the requirement of each unsafe operation; unsafe-site inventory"
OWN = "static: ownership ledger (linear-resource dataflow with move tracking of uninitialised storage) over compiler THIR for every public function"
AUDNOTE = ("Sweeps every public safe function of the library with symbolic arguments, opaque callbacks and iterators, and concrete dimensions (0 included); requirements are decided under the "
           "gates of the path. Trusted: rustc's THIR, type and borrow checking and trait resolution, and the models of core primitives in engine/. Aliasing models (Stacked Borrows) are "
           "not decided; dimensions beyond the instantiated ones are not covered.")

IN = ["inputs", "configurations"]

TABLE = [
    P("C01", "Safe interfaces never reach undefined behaviour",
      "Calling any public safe function of the library, with any arguments and dimensions, never executes an unsafe operation whose requirement does not hold: unchecked element accesses "
      "stay inside the vector or matrix, memory is treated as initialised only after every part of it has been written, and a value is reinterpreted as another type only where both "
      "layouts are guaranteed to be the same (vector as array, matrix as nested arrays). A mutable reference that a call returns overlaps no other reference it returns and is not made from a shared one, and no returned reference points to storage that is gone. Functions that could violate this for some argument stay marked unsafe.",
      IN, "every public safe function, every element type, argument, callback and iterator (short, exact and long), every dimension, zero included",
      "An uninitialised read or an access just outside usually returns plausible data, so tests pass; unsafe requirements quantify over all sizes and all iterator lengths.",
      ["src/vector/base/init.rs", "src/vector/base/iter.rs", "src/vector/spec.rs", "src/matrix/base/init.rs", "src/matrix/base/convert.rs", "src/matrix/transpose.rs"],
      [("uninitialised storage", "src/vector/base/init.rs, src/matrix/base/init.rs"), ("partial collection", "src/vector/base/iter.rs"), ("named unchecked accessors", "src/vector/spec.rs"),
       ("layout casts", "src/matrix/base/convert.rs, src/matrix/transpose.rs")], technique=AUD, level_note=AUDNOTE),
    P("C02", "Elements are moved: none is duplicated, none is lost without being dropped",
      "Every element (of any type, including types with destructors) that is handed to the library by value, or that a callback or iterator gives it, ends in exactly one place: in the "
      "result, with a callback, or dropped once. Collecting from an iterator that ends early drops exactly the items taken; initialising, mapping, zipping, unzipping, transposing and "
      "iterating neither leak nor copy elements. If user code that the library calls panics, no element is dropped twice.",
      IN, "every element type with a destructor, every dimension, every length of iterator, a panic at every call into user code",
      "The tests use plain numbers, for which a duplicated or lost element is invisible; ownership errors show only with destructors and at particular lengths or panic points.",
      ["src/vector/base/init.rs", "src/vector/base/iter.rs", "src/matrix/base/init.rs", "src/matrix/base/iter.rs", "src/matrix/transpose.rs"],
      [("partial collection", "src/vector/base/iter.rs"), ("initialisation in place", "src/vector/base/init.rs, src/matrix/base/init.rs"), ("transposition by bitwise moves", "src/matrix/transpose.rs")],
      technique=OWN, level_note=AUDNOTE),
    P("C03", "Types, borrows and shapes keep misuse from compiling",
      "What the interface promises in its types holds: vectors, matrices, complex numbers, quaternions and transformations are Copy, Clone, Send, Sync, comparable, default-constructible or "
      "'static exactly when their elements are, are covariant in the element, and have no drop of their own; every reference or iterator obtained from one borrows it (it cannot outlive it, "
      "freezes it, and a mutable one is exclusive and needs mutable access); operations by value consume their operands; operands of different dimension, non-conformable products, "
      "determinants of non-square matrices, components beyond the dimension, arrays of another shape and transformations of another space are rejected at compile time; unchecked access "
      "needs unsafe; and operations demand no more of the element type than they use (any type can be stored, moved, mapped, zipped and iterated).",
      ["programs", "inputs"], "every program that uses the interface: what the compiler accepts and rejects",
      "Tests are programs that compile; that a wrong program is rejected, or that another element type is accepted, no running test can see. One wrong lifetime, bound or marker "
      "implementation on top of unsafe code makes safe programs unsound.",
      ["src/vector/base/init.rs", "src/vector/spec.rs", "src/matrix/base/init.rs", "src/matrix/base/convert.rs", "src/matrix/product.rs", "src/complex/moebius.rs", "src/transform/chain.rs"],
      [("borrowing accessors", "src/vector/spec.rs, src/vector/base/init.rs, src/complex/*.rs"), ("views through pointer casts", "src/matrix/base/convert.rs"),
       ("dimension parameters", "src/matrix/product.rs, src/matrix/square.rs"), ("derived markers", "src/vector/base/mod.rs, src/matrix/base/mod.rs")],
      technique="static: type-level witnesses - compile-pass and compile-fail twin programs decided by the compiler's type and borrow checker",
      level_note="About 530 twin programs (1000 obligations) over every borrowing accessor, type and conformability rule of the public interface; each rejected twin has to be rejected for the "
                 "stated class of error and differs from an accepted twin by one change. Trusted: rustc's type and borrow checker. Programs outside the listed shapes are not covered."),
    P("C04", "Every function returns: no panic and no endless loop, at any dimension",
      "As long as the element operations, callbacks, iterators and generators it calls return, every public function returns for every argument and every dimension, zero included: it does "
      "not panic, overflow its index arithmetic, recurse for ever or get caught in a loop that nothing can end. Exceptions: a position outside the vector or matrix (index, row, column, "
      "cofactor) may panic; with a dimension of zero, what needs an element (first-element folds, sum, extremes, norms, dot products over a contracted dimension of zero, lengths, "
      "normalised samples and what is built on them) may panic or not end; the remainder of quaternions and parsing of quaternions are not implemented. Iterating, mapping, comparing, "
      "converting, formatting and transposing work for vectors and matrices without components.",
      IN, "every public function, every argument (NaN and extreme values included), every dimension from zero",
      "Tests call functions at ordinary sizes and values; a panic at dimension zero or one, at a NaN, for one sign or one position, or a loop that cannot end for some input passes them. Two such "
      "defects were found here: formatting vectors without components and iterating matrices without rows.",
      ["src/vector/base/format.rs", "src/matrix/base/iter.rs", "src/matrix/base/init.rs", "src/matrix/square.rs", "src/transform/rotation.rs", "src/vector/distr.rs"],
      [("asserts and unwraps", "src/matrix/square.rs, src/vector/base/iter.rs, src/matrix/base/iter.rs"), ("formatting", "src/vector/base/format.rs, src/matrix/base/format.rs"),
       ("recursion of the look-at construction", "src/transform/rotation.rs"), ("rejection loops", "src/vector/distr.rs, src/matrix/distr.rs")],
      technique="static: abstract interpretation of compiler THIR over every public function, deciding the feasibility of every panic event, endless loop and unconditioned recursion",
      level_note="Sweeps every public function of the library with symbolic arguments and concrete dimensions (0 included). Loops over arrays and ranges are unrolled completely; a loop that is "
                 "summarised (rejection sampling, repeated squaring) counts as endless only if nothing an iteration changes can end it, so its termination with probability one is not claimed. "
                 "Trusted: rustc's THIR and trait resolution, the models of core primitives in engine/. Functions parsing text are left out."),
    P("C05", "Every feature combination builds and means the same",
      "With every combination of the features std, rand and approx the library type-checks; without std nothing in the build needs the standard library; an item is missing only if it belongs "
      "to a disabled feature (implementations of rand's or approx's traits and the distr modules); and every function that exists has the same meaning as in the full build.",
      ["configurations", "inputs"], "all eight combinations of the three features, every item and every function body",
      "The test suite is built with one or two combinations; an item gated by the wrong feature, a use of std outside its gate or another implementation under a gate shows only in a build that "
      "nobody tests.",
      ["Cargo.toml", "src/lib.rs", "src/vector/mod.rs", "src/matrix/mod.rs", "src/complex/mod.rs", "src/transform/linear.rs", "src/transform/rotation.rs"],
      [("feature gates", "src/lib.rs, src/*/mod.rs, src/transform/*.rs"), ("feature table", "Cargo.toml")],
      technique="static: comparison of the type-checked programs (compiler THIR, item and implementation tables, linked crates) of all feature combinations",
      level_note="Exact comparison of the typed bodies and interfaces of all items across the eight combinations, after naming implementations by what they implement; where bodies differ, the "
                 "specifications of C10-C27 are decided again in that combination (value numbering). Trusted: rustc's THIR. One target (x86_64-unknown-linux-gnu)."),
    P("C06", "Results depend on the arguments alone; nothing else is read or changed",
      "No function of the library reads or changes anything besides its arguments and what they refer to: no global, thread-local or hidden state, no input or output, no clock, environment "
      "or thread, and no source of randomness other than the generator it is given. Equal calls therefore give equal results, in any order and from any number of threads, and equal "
      "generator states give equal samples.",
      ["inputs", "histories", "schedules"], "every public function, every history of earlier calls, every interleaving of threads",
      "A cache, counter, global generator or diagnostic output does not change what a single-threaded test with fresh state asserts; only a history or schedule shows it.",
      ["src/lib.rs", "src/vector/distr.rs", "src/matrix/distr.rs", "src/complex/distr.rs", "src/transform/rotation.rs"],
      [("samplers use the generator they are given", "src/vector/distr.rs, src/matrix/distr.rs, src/complex/distr.rs, src/transform/*.rs"), ("no statics", "src/**")],
      technique="static: effect analysis by call-graph reachability over compiler THIR, through the generic code of dependencies",
      level_note="Exact for what the call graph over typed bodies shows; functions outside the library are classified by where they live (std's io, fs, net, env, time, thread, sync, process; "
                 "atomics; rand's own generators; volatile access). Calls through the caller's own trait implementations are the caller's. Trusted: rustc's THIR and trait resolution."),
    P("C10", "Arithmetic operators act component by component",
      "Negation, +, -, *, / and % between vectors (or matrices) of equal shape, *, / and % by a scalar on the right, and a primitive scalar times a vector, apply the element type's "
      "operator to each component with the operands in their written order. The assigning forms leave in the target, component by component, what the element type's assigning operator "
      "leaves. The additive zero has every component zero and is recognised as zero exactly when all components are; the matrix unit has ones on the diagonal and zeros elsewhere, and is recognised as such; setting to zero or to one leaves exactly "
      "those values.",
      IN, "every element type with the operator (non-commutative ones included), every value, every dimension (zero wherever the operation has a value there)",
      "Tests use small integers in a few shapes, where swapped operands, a wrong partner or a skipped component can coincide with the right answer; nothing tests a non-commutative element.",
      ["src/vector/ops/base.rs", "src/matrix/ops/base.rs", "src/matrix/square.rs"],
      [("operator impls for vectors", "src/vector/ops/base.rs"), ("operator impls for matrices", "src/matrix/ops/base.rs"), ("unit matrix", "src/matrix/square.rs")]),
    P("C11", "Comparisons, bit and integer operations act component by component",
      "Component-wise comparisons (equal, not equal, less, less-or-equal, greater, greater-or-equal), bitwise not/and/or/xor with their assigning forms, and floored integer division "
      "and remainder of vectors and matrices give in each position the element type's result for the operands in that position, in order. Reducing booleans tells whether any, or all, "
      "components hold; equality of two vectors or matrices holds exactly when all components are equal (also of one with itself, where a component may differ from itself) and inequality otherwise; a clone, a copy or the target of cloning from "
      "another value has that value's components in the same places.",
      IN, "every element type with the operation, every value (unequal in one component only, negative divisors, ...), every dimension (zero wherever the operation has a value there)",
      "Tests compare a handful of three-component vectors; a comparison that is wrong only for equal operands, for one position or for negative divisors passes them.",
      ["src/vector/ops/vcmp.rs", "src/vector/ops/bit.rs", "src/vector/ops/int.rs", "src/matrix/ops/vcmp.rs", "src/matrix/ops/bit.rs", "src/matrix/ops/int.rs", "src/vector/mod.rs", "src/matrix/mod.rs"],
      [("comparison lifts", "src/vector/ops/vcmp.rs, src/matrix/ops/vcmp.rs"), ("bit lifts and reductions", "src/vector/ops/bit.rs, src/matrix/ops/bit.rs")]),
    P("C12", "Float functions are lifted to components with correct broadcasting",
      "Every float function offered on vectors and matrices (roots, powers, exponentials, logarithms, trigonometric and hyperbolic functions, rounding, absolute value, sign, minimum, "
      "maximum, clamping, fused multiply-add) returns in each position that very scalar function of the operands in that position, in the scalar function's argument order. An operand that "
      "is a scalar counts as that scalar in every position, and for a matrix an operand that is a vector counts as that row repeated in every row.",
      IN, "every float type, every value, every mix of full, row-vector and scalar operands, every dimension (zero wherever the operation has a value there)",
      "There are 40 functions in two containers with up to nine operand mixes each; tests touch a few, at points where neighbouring functions or swapped operands may agree.",
      ["src/vector/math.rs", "src/matrix/math.rs"],
      [("lifts and broadcasting", "src/vector/math.rs, src/matrix/math.rs")]),
    P("C13", "Constructors and combinators visit each element once, in order",
      "Building a vector or matrix from a closure calls it once per position, in row-major order, and stores the results in that order; filling, default construction and index construction "
      "put the given value, the default value, or the position itself in every position. Mapping, visiting, folding (with or without a start value), scanning, zipping, unzipping and "
      "enumerating pass every element by value to the closure exactly once, in row-major order, with its own index or partner and the current accumulator, and put each result where its "
      "element was.",
      IN, "every element type, every closure (with arbitrary internal state), every value, dimensions from zero up for vectors and from one up for matrices",
      "Tests use one or two sizes and pure closures, so a repeated, skipped or reordered call, or a state thread that restarts at a row, is not observed.",
      ["src/vector/base/init.rs", "src/vector/base/iter.rs", "src/matrix/base/init.rs", "src/matrix/base/iter.rs"],
      [("construction", "src/vector/base/init.rs, src/matrix/base/init.rs"), ("combinators", "src/vector/base/iter.rs, src/matrix/base/iter.rs")]),
    P("C14", "Iteration yields each element once in order; collecting takes exact counts",
      "Iterating a vector or a matrix, by value, by shared or by mutable reference, forwards (and backwards for vectors), yields every element exactly once in row-major order and then ends; "
      "flattening any sequence of sequences yields the inner sequences' elements in order, skipping empty ones. The other ways to consume such an iterator (skipping to the n-th, last, counting, "
      "folding, for-each), also after some steps, agree with stepping through it, and its size hint never excludes the true number. Collecting from an iterator succeeds exactly when it still has at least as "
      "many items as there are positions, takes no more than that many, and stores them in order; grouping an iterator yields consecutive full groups and ends at the first incomplete one. "
      "Converting from a slice succeeds exactly when its length equals the number of positions.",
      ["inputs", "histories", "configurations"], "every iterator (any length, also one that ends and would yield again), every prefix of calls, every slice length, every dimension (zero wherever the operation has a value there)",
      "Tests iterate complete small containers and collect from ranges of one or two lengths; empty inner sequences, mid-row mutation, leftovers of the source iterator and length mismatches by one are not sampled.",
      ["src/vector/base/iter.rs", "src/matrix/base/iter.rs", "src/matrix/base/convert.rs"],
      [("flattening iterator", "src/matrix/base/iter.rs"), ("collecting and grouping", "src/vector/base/iter.rs, src/matrix/base/convert.rs")]),
    P("C15", "Indexing, views, named components and conversions agree on one layout",
      "Element (i, j) of a matrix is the j-th component of its i-th row, the i-th component of its j-th column, and the element at (j, i) of its transpose; named components x, y, z, w are "
      "components 0, 1, 2, 3. Every conversion to, from, or view as arrays, vectors of vectors, arrays of vectors, arrays of arrays and tuples keeps all components in their places, and a "
      "mutable reference obtained through any of these writes that component and no other. Safe indexing, row and column access panic exactly when an index is out of range.",
      IN, "every element type, every index (in and out of range), every dimension (zero wherever the operation has a value there)",
      "Tests check chosen positions of small square shapes, where a row/column confusion, an aliasing write or a missing bounds failure can go unseen.",
      ["src/vector/base/init.rs", "src/vector/spec.rs", "src/matrix/base/init.rs", "src/matrix/base/convert.rs", "src/matrix/transpose.rs"],
      [("indexing and pointers", "src/vector/base/init.rs, src/matrix/base/init.rs"), ("views and conversions", "src/matrix/base/convert.rs"), ("named components, tuples", "src/vector/spec.rs")]),
    P("C16", "Dot, outer, cross and matrix products follow the ring definitions",
      "The dot product is the sum over positions of left times right component; the outer product has left component i times right component j at (i, j); matrix-vector, vector-matrix and "
      "matrix-matrix products are the textbook sums, with every factor from the left operand on the left, also when multiplication does not commute. The cross product is the usual one in "
      "three dimensions, its scalar analogue in two, and in four dimensions the cross product of the first three components with a zero fourth component.",
      IN, "every ring of elements (non-commutative multiplication included), every value, all compatible dimensions (zero wherever the operation has a value there)",
      "Tests multiply a few integer matrices; index confusions on non-square shapes and factor order for non-commutative elements are not exercised.",
      ["src/vector/dot.rs", "src/vector/spec.rs", "src/matrix/product.rs"],
      [("products", "src/vector/dot.rs, src/matrix/product.rs"), ("cross products", "src/vector/spec.rs")]),
    P("C17", "Determinant, cofactor, adjugate and inverse follow the algebraic definitions",
      "Over a commutative ring the determinant of a square matrix is the alternating sum over permutations, the cofactor at (i, j) is the signed determinant of the matrix without row i and "
      "column j, and asking for a cofactor outside the matrix panics. The adjugate is the transposed matrix of cofactors and the inverse is the adjugate divided by the determinant, so that "
      "over a field the inverse times the matrix is the unit matrix; the diagonal matrix of a vector has its components on the diagonal and zeros elsewhere.",
      IN, "every commutative ring (field for inverses) of elements, every value, every dimension (zero wherever the operation has a value there)",
      "Tests check determinants and inverses of a few fixed or random float matrices of size up to four, within a tolerance, and never a cofactor's sign at every position of every size.",
      ["src/matrix/square.rs"],
      [("Laplace expansion with row/column masks", "src/matrix/square.rs"), ("inverse", "src/matrix/square.rs")]),
    P("C18", "Reductions and norms equal their definitions",
      "Summing a vector or matrix adds all its components from first to last; maximum and minimum keep the first component and replace it only by a strictly greater (for the minimum, "
      "by a not strictly greater) later one. Sums and products of iterators of vectors or matrices are the component-wise sums and products of all items, starting from all zeros or all ones. "
      "The L1, L2, squared L2 and infinity norms of vectors, matrices and primitive numbers, the length, the squared length, normalisation (division of each component by the length) and "
      "the epsilon test (absolute value at most the machine epsilon) equal their definitions.",
      IN, "every element type with the operations, every value (negative, equal, smallest integers), every iterator length, every dimension (zero wherever the operation has a value there)",
      "Tests use positive, distinct or small values in one size; sign handling, ties, later positions and empty iterators are not covered.",
      ["src/vector/ops/base.rs", "src/vector/ops/iter.rs", "src/vector/dot.rs", "src/matrix/ops/base.rs", "src/matrix/ops/iter.rs", "src/traits.rs"],
      [("reductions and norms", "src/vector/ops/base.rs, src/matrix/ops/base.rs"), ("primitive norms", "src/traits.rs")]),
    P("C20", "Complex numbers obey complex arithmetic and num_complex's functions",
      "A complex number is its real part followed by its imaginary part in every constructor, conversion and accessor. Equality, cloning, zero and one (set and recognised) go by both parts. Addition, subtraction, negation, conjugation, the units, and over a "
      "commutative ring products, powers with natural exponents and squared norms, are those of complex arithmetic (a scalar operand being a real number, on either side where offered); over "
      "a field so are inverses, quotients, negative integer powers, norms, polar form and normalisation. Remainder and the elementary functions (exponential, logarithms, roots, "
      "trigonometric, hyperbolic, powers, fast variants) return exactly what num_complex returns. Assigning forms and iterator sums and products agree with the plain operators. The 2x2 "
      "matrix of a number acts as multiplication by it.",
      IN, "every commutative ring (field for division) of parts, every value, integer exponents and iterator lengths up to the analysed bound",
      "Tests check a few products and quotients of small numbers; a wrong sign in a rarely used operand mix, a swapped argument of a delegated function or a wrong assigning form is not sampled.",
      ["src/complex/complex_.rs"],
      [("arithmetic and delegated functions", "src/complex/complex_.rs")]),
    P("C21", "Quaternions obey Hamilton's algebra in every operand mix",
      "A quaternion is its scalar part followed by its i, j, k parts in every constructor, conversion and accessor; equality, cloning, zero and one (set and recognised) go by all four. Over a commutative ring, sums, products (i*j = k, j*k = i, k*i = j, squares "
      "-1, not commutative), conjugates and squared norms are Hamilton's; a scalar or complex operand on either side counts as the quaternion with those leading parts. Over a field the "
      "inverse is the conjugate over the squared norm, a quotient is the product with the inverse on the right, and norms and normalisation follow. Assigning forms and iterator sums and "
      "products agree with the plain operators, and the 4x4 matrix of a quaternion acts as multiplication by it from the left.",
      IN, "every commutative ring (field for division) of parts, every value, every operand mix offered, iterator lengths up to the analysed bound",
      "There is no test of quaternions beyond rotations; a swapped factor or sign shows only for general operands of one mixed operator.",
      ["src/complex/quaternion.rs"],
      [("arithmetic", "src/complex/quaternion.rs")]),
    P("C22", "Moebius maps apply, compose, invert and differentiate as fractions",
      "A Moebius map with coefficients a, b, c, d (in this order in every constructor, conversion and accessor; equality and cloning go by them) sends x to (a x + b) / (c x + d), with the quotient's inverse on the right and "
      "coefficients on the left where multiplication does not commute, on scalars, complex numbers and quaternions. The identity, composition (apply the right map first), inverse, "
      "determinant and normalisation agree with that action, both as inherent functions and as a transformation. Derivatives are the true derivatives of the action, times the given "
      "direction; directions and normals are transformed by the derivative and brought to length one.",
      IN, "every field of coefficients, every map and point where the denominator does not vanish",
      "Tests sample random maps within a tolerance for a few laws; quaternion derivatives and each accessor are not settled by them.",
      ["src/complex/moebius.rs", "src/transform/moebius.rs"],
      [("Moebius maps", "src/complex/moebius.rs"), ("as transformations", "src/transform/moebius.rs")]),
    P("C23", "Shift, scale, linear, affine maps and chains act and compose correctly",
      "A shift adds its vector, a scale multiplies by its magnitude, a linear map multiplies by its matrix from the left, an affine map does the linear part first and then its shift, and a "
      "chain applies its inner part before its outer one. For each: the identity changes nothing, chaining two applies the right one first, over a field the inverse undoes it, the derivative is that of the action "
      "along the given direction, and swapping two maps through reordering keeps their composed action. Directions are transformed by the linear part and kept at unit length (scales: "
      "positive magnitudes), normals of linear maps by the inverse transpose; shifts leave both unchanged. Conversions, part accessors and clones keep the data, and two are equal exactly when all of it is.",
      IN, "every ring or field of components, every value, every dimension (zero wherever the operation has a value there) up to the analysed bound",
      "Tests check some laws on random values of one dimension within a tolerance; order confusions coincide when parts commute, and normals are hardly tested.",
      ["src/transform/shift.rs", "src/transform/scale.rs", "src/transform/linear.rs", "src/transform/affine.rs", "src/transform/chain.rs", "src/transform/mod.rs"],
      [("elementary maps", "src/transform/shift.rs, src/transform/scale.rs, src/transform/linear.rs"), ("compositions and reordering", "src/transform/affine.rs, src/transform/chain.rs")]),
    P("C24", "Rotations turn vectors as defined and keep lengths and composition",
      "A plane rotation by an angle multiplies by the unit complex number of that angle; a space rotation about a unit axis follows the right-hand (Rodrigues) formula, through a unit "
      "quaternion with half the angle. Angle, axis and angle, linear form, and conversions and clones give back that representation, and two are equal exactly when all its parts are. Identity, inverse and chaining (right one first) agree with the action, "
      "inverses of unit rotations undo them and lengths are kept, derivatives, directions and normals rotate the given vector, and reordering with shifts keeps the composed action. Looking "
      "towards a unit direction sends the negative z axis to it, with the columns right, strict up and backwards when an up vector is given.",
      IN, "every angle, unit axis, direction and vector over real numbers, without rounding",
      "Tests sample random rotations within a tolerance; special directions (parallel to an axis) and wrong conventions in one accessor can be missed.",
      ["src/transform/rotation.rs", "src/transform/linear.rs"],
      [("rotations", "src/transform/rotation.rs"), ("look-at maps", "src/transform/linear.rs, src/transform/rotation.rs")]),
    P("C25", "Approximate equality is component-wise with the given epsilon",
      "With the approx feature, two vectors, matrices, complex numbers, quaternions, Moebius maps or transformations are equal within an epsilon exactly when every pair of corresponding "
      "components (for a chain: both parts) is equal within that same epsilon according to the component type; unequal is the opposite. The default epsilon is that of the component type.",
      IN, "every component type with approximate equality, every value and epsilon, every dimension (zero wherever the operation has a value there)",
      "Tests use approximate equality as their oracle, so one that accepts too much hides every other failure and is never tested itself.",
      ["src/vector/approx.rs", "src/matrix/approx.rs", "src/complex/approx.rs", "src/transform/shift.rs", "src/transform/scale.rs", "src/transform/linear.rs", "src/transform/rotation.rs", "src/transform/chain.rs"],
      [("AbsDiffEq impls", "src/vector/approx.rs, src/matrix/approx.rs, src/complex/approx.rs, src/transform")]),
    P("C26", "Text form lists every component once, in order, and passes failures on",
      "Displaying or debug-printing a vector writes Vector, its dimension and its components separated by a comma and a space in parentheses; a matrix writes, between line breaks, Matrix with its "
      "row and column count and then one indented line per row with each element followed by a comma and a space; complex numbers and quaternions write their parts, scalar part first, in parentheses "
      "after their type's name. Display uses the element's Display and debug its Debug, each under default formatting options; every element appears exactly once, in row-major order, and when an element "
      "fails to format the failure is returned and nothing more is written.",
      IN, "every element type (also one whose formatting fails), every value, every dimension (zero wherever the operation has a value there)",
      "Nothing tests the text form, let alone an element whose formatting fails in the middle.",
      ["src/vector/base/format.rs", "src/matrix/format.rs", "src/complex/format.rs"],
      [("Display and Debug", "src/vector/base/format.rs, src/matrix/format.rs, src/complex/format.rs")]),
    P("C27", "Random samples draw each component once and respect their constraints",
      "With the rand feature, sampling a composite (vector, matrix, complex, quaternion, Moebius map, shift, linear or affine map, by the generic or the normal distribution) draws one sample per component from the "
      "given generator in layout order (affine: shift before linear part). A normal float is sqrt(-2 ln(1-u)) cos(p) with u uniform in [0,1) and then p uniform in [0,pi). Non-zero samples are normal ones redrawn "
      "until longer than epsilon, unit samples those divided by their length, invertible ones redrawn until the determinant's L1 norm differs from zero as told by the epsilon test. Uniform plane rotations have an angle uniform in "
      "[0,2pi), uniform space rotations a unit axis drawn first and then such an angle.",
      ["inputs", "histories", "configurations"], "every generator state, every number of redraws, every dimension (zero wherever the operation has a value there)",
      "Tests draw a few hundred samples from one seeded generator; rejection boundaries, draw order and rejected draws are not observable that way.",
      ["src/distr.rs", "src/vector/distr.rs", "src/matrix/distr.rs", "src/complex/distr.rs", "src/transform/linear.rs", "src/transform/affine.rs", "src/transform/rotation.rs"],
      [("distributions", "src/distr.rs, src/vector/distr.rs, src/matrix/distr.rs, src/complex/distr.rs"), ("invertible and rotation samples", "src/transform")]),
    P("C28", "Floating-point results are close to the real-number results",
      "With float elements, norms, products, determinants, inverses, rotations and the other composed operations return the value that real arithmetic gives, up to an error of a small multiple of the machine "
      "epsilon times the condition of the problem, and neither overflow nor underflow where the result is representable.",
      IN, "every finite float input, every dimension", "Tests compare with a tolerance at a few random points, where conditioning is good.",
      ["src/vector/dot.rs", "src/matrix/square.rs", "src/complex/complex_.rs", "src/transform/rotation.rs"],
      [("composed float operations", "src/vector/dot.rs, src/matrix/square.rs, src/transform/rotation.rs")],
      na="Rounding-error bounds quantify over unbounded float inputs and cancellation; no sound static error analysis in reach bounds them (sums of products with cancellation have no bounded relative error, and "
         "squared lengths do overflow early by design), and evaluating samples would be a runtime test. The other properties decide the formulas as real or uninterpreted expressions instead."),
    P("C29", "Random samples follow their distributions and are found quickly",
      "Unit samples are uniform over directions, uniform rotations are uniform in their angle and axis, components of samples are independent, and rejection sampling ends after few draws with overwhelming probability.",
      ["inputs", "histories"], "the statistics of every generator that is itself uniform", "Statistical tests of a few hundred samples have no power against small bias.",
      ["src/distr.rs", "src/vector/distr.rs", "src/transform/rotation.rs"], [("distributions", "src/distr.rs, src/vector/distr.rs, src/transform/rotation.rs")],
      na="Quantifies over probability measures of the generator's output; a static argument over the program gives the sampled expression (decided as C27) and that loops can end (C04), but not the measure of its image."),
]
