#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run it to regenerate the file)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mechanism],
            observe_at=list(observe), hook_needed=hook)))

ALG = ["algebra/src/lite_context.h", "algebra/include/roughpy/algebra/algebra_base.h", "vendored/libalgebra_lite/free_tensor.h"]

p("C01", "Free tensor arithmetic is exact truncated tensor-algebra arithmetic",
  "For every width, depth, coefficient type and storage kind, adding, subtracting, negating, scaling, dividing and multiplying free tensors, and every fused or in-place form of these, gives exactly the element the truncated tensor algebra defines (to rounding for floating point, exactly for rationals and polynomials). In-place forms change only their left operand, out-of-place forms change no operand, and an operand may alias another.",
  ["inputs", "configurations", "programs"], "all pairs of tensors (any support, any highest occupied degree, empty or zero operands) x width x depth x {single, double, rational, polynomial} x {dense, sparse}, and all sequences of mutating operations",
  "Unit tests fix a few tensors of one or two shapes; the multiplication, resizing and sparse/dense kernels have shape-dependent branches that only particular degree/width/occupancy combinations reach.",
  ALG + ["vendored/libalgebra_lite/dense_vector.h", "vendored/libalgebra_lite/sparse_vector.h", "roughpy/src/algebra/setup_algebra_type.h", "vendored/libalgebra_lite/algebra.h"],
  [("degree-limited dense product", "vendored/libalgebra_lite/free_tensor.h"), ("fused multiply/scale kernels", "vendored/libalgebra_lite/vector.h"), ("type-erased dispatch", "algebra/include/roughpy/algebra/algebra_base.h")],
  [("coefficients", "stored prefix (dense) or map (sparse) of coefficients", "vendored/libalgebra_lite/dense_vector.h")],
  ["FreeTensor operators and add_mul/sub_mul/add_scal_*/sub_scal_*/mul_smul/mul_sdiv in the Python module"])

p("C02", "exp, log, fused exponential and antipode obey their algebraic definitions",
  "On the truncated tensor algebra, exp of an element without constant term and log of an element with constant term one equal their truncated power series and are mutually inverse, x.fmexp(y) equals x times exp(y), and the antipode is the linear map sending each word to its reversal with sign (-1)^length, so that it inverts every group-like element.",
  ["inputs", "configurations"], "all tensors (sparse supports, only-high-degree elements, single letters, zero) x width x depth (up to depth 8 for small widths) x coefficient type x storage",
  "Tests evaluate a handful of fixed tensors; the Horner schedules limit degree per step and the antipode switches to a tiled kernel above certain depths, so defects show only for particular depth/width/occupancy.",
  ALG, [("truncated Horner exponential/logarithm", "vendored/libalgebra_lite/free_tensor.h"), ("tiled signed reversal", "vendored/libalgebra_lite/free_tensor.h")],
  (), ["FreeTensor.exp/log/fmexp/antipode"])

p("C03", "Shuffle, half-shuffle and adjoint products satisfy their defining identities",
  "The shuffle product is the commutative, associative sum over interleavings truncated at the depth; the half-shuffle is the part in which the left operand's first letter comes first, the two half-shuffles adding up to the shuffle apart from the constant term; and the adjoint of left free multiplication by t satisfies <adj_t(s), w> = <s, t*w> for every word w within the depth. The results do not depend on which products were computed earlier.",
  ["inputs", "configurations", "histories"], "all operand pairs x width x depth x coefficient type x storage, in every order of earlier calls in the same process (the product caches are shared)",
  "Tests check one or two fixed products from a cold cache; word-pair products are cached across calls, so correctness over arbitrary histories is not sampled.",
  ["vendored/libalgebra_lite/shuffle_tensor.h", "vendored/libalgebra_lite/algebra/shuffle_multiplier.cpp", "vendored/libalgebra_lite/algebra/half_shuffle_multiplier.cpp", "vendored/libalgebra_lite/free_tensor.h", "algebra/src/lite_context.h", "roughpy/src/algebra/free_multiply_funcs.cpp"],
  [("cached word-pair product", "vendored/libalgebra_lite/algebra/shuffle_multiplier.cpp"), ("adjoint kernel", "vendored/libalgebra_lite/free_tensor.h")],
  [("product cache", "map from word pairs to expanded products", "vendored/libalgebra_lite/shuffle_tensor.h")],
  ["shuffle_multiply, half_shuffle_multiply, adjoint_to_free_multiply, ShuffleTensor operators"])

p("C04", "The Lie product is the free Lie bracket in the Hall basis",
  "Lie elements form a vector space whose product is bilinear, antisymmetric, satisfies the Jacobi identity up to the truncation depth, and maps to the commutator under the embedding into the tensor algebra; every fused or in-place Lie operation equals the same expression written with the basic ones. Results do not depend on which brackets were computed before.",
  ["inputs", "configurations", "histories"], "all pairs/triples of Lie elements x width x depth x coefficient type x storage, in any order of earlier bracket computations",
  "The bracket of Hall words is computed recursively and cached per process; tests check a few letters only.",
  ["vendored/libalgebra_lite/lie.h", "vendored/libalgebra_lite/algebra/lie_multiplier.cpp", "vendored/libalgebra_lite/basis/hall_set.cpp", "algebra/src/lie.cpp", "algebra/src/lite_context.h"],
  [("recursive Hall rewriting with cache", "vendored/libalgebra_lite/algebra/lie_multiplier.cpp")],
  [("bracket cache", "pair of Hall keys to expansion", "vendored/libalgebra_lite/lie.h")], ["Lie operators in Python"])

p("C05", "Basis enumeration, key/index conversion and parentage are consistent bijections",
  "For every width and depth the tensor and Lie bases enumerate exactly (w^(d+1)-1)/(w-1) words and Witt-formula-many Hall elements in degree order; index and key conversions are mutually inverse bijections, reported sizes agree with the enumeration, parents recombine to their key, and keys built from letters or nested brackets denote the word or bracket they spell, including when used to index or build elements.",
  ["inputs", "configurations"], "all width/depth pairs with at most a few thousand basis elements, all keys and indices of each (and rejected out-of-range ones)",
  "Tests spell out a few keys for one width; index packing arithmetic depends on width, degree and position.",
  ["vendored/libalgebra_lite/basis/hall_set.cpp", "vendored/libalgebra_lite/basis/tensor_basis.cpp", "algebra/src/hall_set_size.cpp", "algebra/include/roughpy/algebra/basis_info.h", "roughpy/src/algebra/basis.cpp", "roughpy/src/algebra/tensor_key.cpp", "roughpy/src/algebra/lie_key.cpp"],
  [("packed word index arithmetic", "vendored/libalgebra_lite/tensor_basis.h"), ("Hall set growth", "vendored/libalgebra_lite/basis/hall_set.cpp"), ("tree parsing of keys", "roughpy/src/algebra/lie_key.cpp")],
  (), ["TensorBasis, LieBasis, TensorKey, LieKey, Context sizes"])

p("C06", "Lie-to-tensor embedding and its inverse, and CBH, are exact",
  "The embedding of Lie elements in tensors expands every Hall element as nested commutators, converting back recovers the Lie element exactly, and the Campbell-Baker-Hausdorff product of any sequence of Lie elements equals the logarithm of the ordered product of their exponentials, for any mixture of storage kinds and of truncation depths. The empty sequence gives zero.",
  ["inputs", "configurations", "histories"], "all sequences of Lie elements (length 0..n, zero elements included) x width x depth x coefficient type x requested and actual storage",
  "Tests use two or three elements of one shape; expansion tables are built lazily and cached, and mixed-depth conversion paths are untested.",
  ["vendored/libalgebra_lite/maps.h", "vendored/libalgebra_lite/maps.cpp", "algebra/src/lite_context.h", "algebra/src/context.cpp", "roughpy/src/algebra/context.cpp"],
  [("cached bracket expansion", "vendored/libalgebra_lite/maps.cpp"), ("product of exponentials then log", "algebra/src/lite_context.h")],
  (), ["Context.lie_to_tensor, tensor_to_lie, to_logsignature, cbh, compute_signature"])

p("C07", "Contexts are unique per configuration and conversion is faithful",
  "Requesting a context for the same width, depth and coefficient type always yields the same (equal) context; an object reports the context it belongs to; and an operation or query asked for in another depth or coefficient type gives the truncation (or zero extension) and coefficient conversion of the same mathematical object, rejecting different widths rather than mixing them.",
  ["configurations", "inputs", "histories"], "all pairs of configurations, in any order of first use",
  "The tests create one context at a time; cross-context paths and first-use ordering are not exercised.",
  ["algebra/src/context.cpp", "algebra/src/lite_context.h", "algebra/src/algebra_base.cpp", "roughpy/src/algebra/context.cpp"],
  [("context registry", "algebra/src/context.cpp"), ("convert_impl", "algebra/src/lite_context.h")],
  [("context cache", "one context per width/depth/type", "algebra/src/lite_context.cpp")], ["get_context, obj.context, binary operators across contexts"])

p("C08", "All views of an algebra element agree, and values are isolated from each other",
  "For every tensor or Lie element, iteration, indexing by key or position, array export, printing, size, degree, emptiness and equality describe one and the same coefficient function, identically for dense and sparse storage; array export has the full dimension with zeros where coefficients are absent. Mutating one value never changes another value that was returned or built earlier.",
  ["inputs", "programs"], "all elements x all views, after any sequence of mutating operations on them or on objects they were derived from",
  "Tests look at one view of dense elements at a time; aliasing appears only in multi-step programs.",
  ["roughpy/src/algebra/setup_algebra_type.h", "algebra/include/roughpy/algebra/algebra_base.h", "algebra/src/algebra_iterator.cpp", "algebra/include/roughpy/algebra/algebra_base.h"],
  [("type-erased iterators", "algebra/src/algebra_iterator.cpp"), ("borrow/own storage model", "algebra/include/roughpy/algebra/algebra_base.h")], (), ["Python container protocol of FreeTensor, ShuffleTensor, Lie"])

p("C09", "Scalars and polynomial coefficients form exact commutative rings",
  "Arithmetic, comparison, and printing of rational and polynomial coefficients are exact with no overflow or loss however large the values grow, obey the commutative ring laws (and field laws for rationals, division by zero being rejected), and polynomials and monomials built in different orders denote the same value. Floating scalars follow IEEE arithmetic of their type, and a scalar converts between types without changing its value unless the target cannot represent it.",
  ["inputs", "programs"], "all expression trees over integers, floats, monomials and polynomials of unbounded coefficient size",
  "Tests check small literal cases; growth past machine words, cancellation and aliasing are not sampled.",
  ["scalars/src/scalar.cpp", "scalars/src/scalar/arithmetic.cpp", "scalars/src/scalar/casts.cpp", "scalars/src/scalar/comparison.cpp", "vendored/libalgebra_lite/algebra/polynomial.cpp", "vendored/libalgebra_lite/basis/monomial.cpp", "roughpy/src/scalars/r_py_polynomial.cpp", "roughpy/src/scalars/scalars.cpp"],
  [("trivial/owned/pointer scalar representations", "scalars/src/scalar.cpp"), ("sparse polynomial arithmetic", "vendored/libalgebra_lite/algebra/polynomial_multiplier.cpp")], (), ["Scalar, Monomial, PolynomialScalar in Python"])

p("C10", "Data ingestion preserves every value in any container or memory layout",
  "Building an algebra element or a stream from a list, tuple, dict, key/value pairs, NumPy array of any dtype, order, stride (negative, transposed, sliced, zero-length, broadcast), buffer or DLPack provider yields the same coefficients as the equivalent nested list, converted to the target coefficient type; malformed data, and element types or spellings a constructor does not support, are rejected with an exception and never misread. The source data is never modified and no memory outside it is read.",
  ["inputs", "configurations"], "all containers x dtypes x layouts x coefficient types, well-formed and malformed",
  "Tests use contiguous arrays of two dtypes; strides, offsets, empty extents and lifetime of borrowed buffers form an unbounded space.",
  ["roughpy/src/args/parse_data_argument.cpp", "roughpy/src/args/strided_copy.cpp", "roughpy/src/args/buffer_info.cpp", "roughpy/src/args/dlpack_helpers.cpp", "roughpy/src/args/numpy.cpp", "roughpy/src/scalars/scalars.cpp", "roughpy/src/scalars/pytype_conversion.cpp"],
  [("strided gather", "roughpy/src/args/strided_copy.cpp"), ("leaf discovery and type promotion", "roughpy/src/args/parse_data_argument.cpp")], (), ["constructors of FreeTensor/ShuffleTensor/Lie, LieIncrementStream.from_increments"])

p("C11", "An increment stream's log signature is the CBH of the increments it covers",
  "The log signature of a stream of timed increments over an interval is the Campbell-Baker-Hausdorff product, in time order, of exactly the increments whose times lie in the half-open interval after its end points are rounded to the dyadic grid of the query resolution, a query that reaches an end of the stream's support taking in everything up to that end and a query finer than the stream's own resolution seeing each increment at the left end of its cell of that resolution (nothing dropped, duplicated or reordered, simultaneous increments included in data order); the signature is its exponential; intervals outside the data give zero and the unit.",
  ["inputs", "configurations", "histories"], "all sets of increment times (negative, repeated, dyadic and not), widths, depths, coefficient types, query intervals and resolutions",
  "Tests query a few intervals of short paths; the dyadic dissection and cache branch on the position of each end point.",
  ["streams/src/lie_increment_stream.cpp", "streams/src/dyadic_caching_layer.cpp", "streams/src/stream.cpp", "streams/src/stream_base.cpp", "roughpy/src/streams/lie_increment_stream.cpp", "roughpy/src/streams/stream.cpp", "roughpy/src/streams/signature_arguments.cpp"],
  [("lower_bound range over the increment map", "streams/src/lie_increment_stream.cpp"), ("dyadic dissection of the query", "streams/src/stream.cpp")],
  [("increment map", "time to Lie increment", "streams/src/lie_increment_stream.cpp")], ["Stream.signature, Stream.log_signature"])

p("C12", "Signatures of every stream kind are group-like and multiplicative (Chen)",
  "For every kind of stream and any cut of an interval at points of the query's dyadic grid, all queried at the same resolution, the signature over the whole equals the ordered product of the signatures of the parts and the log signature their CBH product (for streams generated on demand, once the resolution is the finest asked for so far); every signature is group-like (constant term one, shuffle product of any two of its words equals the product of their coefficients) and is the exponential of the log signature over the same interval.",
  ["inputs", "configurations", "histories"], "all stream kinds x data x cut points x resolutions x depths x coefficient types",
  "A universally quantified identity; tests compare single values and do not cut intervals.",
  ["streams/src/stream.cpp", "streams/src/stream_base.cpp", "streams/src/dyadic_caching_layer.cpp", "streams/src/piecewise_abelian_stream.cpp", "streams/src/dynamically_constructed_stream.cpp", "streams/src/tick_stream.cpp", "streams/src/brownian_stream.cpp", "intervals/src/dyadic_interval.cpp"],
  [("CBH over dyadic pieces", "streams/src/stream.cpp")], (), ["Stream.signature, Stream.log_signature on all stream kinds"])

p("C13", "Stream queries depend only on their arguments, not on history or callers",
  "Repeating a query on a stream built from data returns the same value whatever was queried in between (other intervals, resolutions, depths, coefficient types, simplifications or restrictions) and whatever the caller did to earlier results; two streams built from equal data agree on every query. Streams generated on demand repeat a value exactly while nothing finer has been asked, and refining them never changes the degree-one increments already reported; random streams with the same seed and query history agree.",
  ["histories", "inputs"], "all sequences of queries and mutations of results on one stream, compared against a fresh stream for each query",
  "Caches keyed by interval are filled by earlier queries; tests make one or two queries per stream.",
  ["streams/src/dyadic_caching_layer.cpp", "streams/src/dynamically_constructed_stream.cpp", "streams/src/stream.cpp", "streams/src/brownian_stream.cpp", "scalars/src/random.cpp"],
  [("per-interval memoisation", "streams/src/dyadic_caching_layer.cpp"), ("lazy refinement tree", "streams/src/dynamically_constructed_stream.cpp")],
  [("cache", "dyadic interval to log signature", "streams/include/roughpy/streams/dyadic_caching_layer.h")], ["Stream queries in Python"])

p("C14", "Piecewise abelian streams interpolate linearly, and simplify is faithful",
  "A piecewise abelian stream built from disjoint pieces assigns to any interval the CBH product, in order, of each overlapped piece's Lie element scaled by the fraction of the piece that is covered; simplifying a stream over a partition whose points lie on the dyadic grid of the resolution gives a piecewise stream whose value over every partition cell, and over every union of consecutive cells, equals the original's.",
  ["inputs", "configurations"], "all piece layouts (unordered, gaps) x query intervals (inside one piece, straddling, exact, outside) x partitions x coefficient types",
  "Tests query only the full range of unit-length pieces.",
  ["streams/src/piecewise_abelian_stream.cpp", "streams/src/stream.cpp", "roughpy/src/streams/piecewise_abelian_stream.cpp", "intervals/src/partition.cpp"],
  [("fractional scaling of end pieces", "streams/src/piecewise_abelian_stream.cpp"), ("partition-wise log signatures", "streams/src/stream.cpp")], (), ["PiecewiseAbelianStream.construct, Stream.simplify"])

p("C15", "Tick, value, categorical and lead-lag data produce the increments they describe",
  "A stream built from timed events gives, over every interval, the CBH product in event order of: the stated amount for increment events, the change from the channel's previous value for value events (the first being relative to zero), one unit in the named variant's channel for categorical events, and lead-then-lag steps for lead-lag channels; every accepted spelling of the same event data and any order-preserving layout yields the same stream.",
  ["inputs", "histories"], "all event sequences over all channel kinds, all accepted data spellings, numeric and datetime timestamps (counted from the first event given), all query intervals and resolutions",
  "Tests use one or two events per spelling.",
  ["streams/src/tick_stream.cpp", "streams/src/stream_construction_helper.cpp", "roughpy/streams/tick_stream.py", "roughpy/src/streams/tick_stream.cpp", "roughpy/src/streams/r_py_tick_construction_helper.cpp", "streams/src/channels/lead_laggable_channel.cpp"],
  [("previous-value bookkeeping", "streams/src/stream_construction_helper.cpp"), ("granular tick cache", "streams/src/tick_stream.cpp"), ("recursive data parser", "roughpy/streams/tick_stream.py")],
  (), ["TickStream.from_data, TickStreamConstructionHelper"])

p("C16", "Stream schemas map labels to channel positions one-to-one and survive all edits",
  "However a schema is built (parsed, inserted channel by channel, or inferred from data), its width is the number of stream dimensions its channels occupy, the labels of its data channels are listed in channel order one per dimension, every label resolves to its own dimension (labels without the reserved ':'), time and lead-lag options add exactly the dimensions they stand for, and a finalised schema refuses further channels.",
  ["inputs", "histories"], "all sequences of channel insertions of all kinds with arbitrary labels and variants",
  "Tests build three or four literal schemas.",
  ["streams/src/schema.cpp", "streams/src/channels/categorical_channel.cpp", "streams/src/channels/stream_channel.cpp", "streams/src/channels/lead_laggable_channel.cpp", "roughpy/src/streams/schema.cpp", "roughpy/src/args/parse_schema.cpp"],
  [("prefix sums of channel variants", "streams/src/schema.cpp"), ("label comparison", "streams/src/schema.cpp")], (), ["StreamSchema in Python and C++"])

p("C17", "Function, sampled, sound and tensor-valued streams reproduce their source",
  "A stream defined by a function reports over every grid-aligned interval the change of the function between the end points up to the stated accuracy; a stream read from a sound file reports the increments of the decoded samples at their times; a tensor-valued stream's initial value, and its value over any query interval, are the initial value carried by the signature of its increments.",
  ["inputs", "configurations"], "functions, sample formats, channel counts, sampling rates, query intervals and depths",
  "Tests check one constant function, one file per format and single queries.",
  ["roughpy/src/streams/function_stream.cpp", "streams/src/dynamically_constructed_stream.cpp", "streams/src/external_data_stream.cpp", "streams/src/external_data_sources/sound_file_data_source.cpp", "streams/src/tensor_valued_stream.cpp", "roughpy/src/streams/tensor_valued_stream.cpp"],
  [("sample conversion", "streams/src/external_data_sources/sound_file_data_source.cpp"), ("initial value product", "streams/src/tensor_valued_stream.cpp")], (), ["FunctionStream, ExternalDataStream, TensorValuedStream"])

p("C18", "Restriction and support confine a stream without altering it",
  "Restricting a stream to an interval gives a stream that reports as its support the part of that interval inside the original's support and answers every query as the original does over the query's intersection with it (zero and unit when they do not meet), repeated restrictions intersect, and the original stream still answers as before.",
  ["inputs", "histories"], "all stream kinds x nested restrictions x query intervals",
  "Restriction has no direct test.",
  ["streams/src/restriction_stream.cpp", "streams/src/stream.cpp", "intervals/src/intersection_and_union.cpp", "roughpy/src/streams/stream.cpp"],
  [("support trimming of queries", "streams/src/stream.cpp")], (), ["Stream.restrict, Stream.support"])

p("C19", "The signature derivative is the derivative of the signature",
  "The derivative of a signature in the direction of a Lie-valued perturbation equals the first-order change of the exponential of the log signature when the log signature is perturbed in that direction, and for a sequence of consecutive perturbed intervals it obeys the product rule over them; it is linear in the perturbation.",
  ["inputs", "configurations"], "all streams, intervals, perturbation sequences, widths, depths and coefficient types",
  "Tests check depth 1 and 2 of one stream.",
  ["algebra/src/lite_context.h", "streams/src/stream.cpp", "roughpy/src/streams/stream.cpp"],
  [("derivative of the exponential series", "algebra/src/lite_context.h")], (), ["Stream.signature_derivative"])

p("C20", "Dyadic numbers and dyadic intervals are exact and consistently ordered",
  "Dyadic numbers k*2^-n compare, convert, rebase and shift exactly (a refused rebase changes nothing); a dyadic interval built from any real number at any resolution is the unique grid interval of that length containing the number under its half-open convention; parents contain children, halves partition their parent, neighbours abut, and containment, alignment and ordering agree with the sets of points represented, for both half-open conventions.",
  ["inputs"], "all dyadics of representable size, all real parameters including exact grid points and negatives, all resolutions, both conventions",
  "Tests check a few literal values.",
  ["intervals/src/dyadic.cpp", "intervals/src/dyadic_interval.cpp", "intervals/include/roughpy/intervals/dyadic.h", "intervals/include/roughpy/intervals/dyadic_interval.h", "roughpy/src/intervals/dyadic.cpp", "roughpy/src/intervals/dyadic_interval.cpp"],
  [("floor/ceil by convention", "intervals/src/dyadic_interval.cpp"), ("shift comparison", "intervals/src/dyadic.cpp")], (), ["Dyadic, DyadicInterval in Python and C++"])

p("C21", "Dyadic dissection tiles exactly the rounded interval, in order, without overlap",
  "Dissecting an interval at a resolution returns dyadic intervals of length at least one grid step that are pairwise disjoint, consecutive from left to right, of the interval's half-open convention, and whose union is the interval with both end points rounded onto the grid by the convention (empty when these coincide), using the coarsest aligned intervals that fit.",
  ["inputs"], "all intervals of both conventions (tiny, huge, negative, straddling zero, on and off grid) x all resolutions",
  "Tests check half a dozen intervals.",
  ["intervals/src/dyadic_interval.cpp"], [("greedy expansion from the ends", "intervals/src/dyadic_interval.cpp")], (), ["DyadicInterval.to_dyadic_intervals"])

p("C22", "Interval, partition and segmentation operations agree with sets of real numbers",
  "Containment, intersection, equality, intersection and union of intervals agree with the half-open sets they denote under both conventions; a partition's cells tile its interval in order however it was built, refined or merged, with its mesh the length of its shortest cell; and segmentation of an interval by a predicate returns disjoint ordered segments covering, to the search depth, exactly where the predicate holds.",
  ["inputs", "histories"], "all interval pairs and points (shared and off-by-one-ulp end points), all sequences of partition edits, predicates that are unions of intervals",
  "Tests check literal pairs only.",
  ["intervals/src/interval.cpp", "intervals/src/real_interval.cpp", "intervals/src/intersection_and_union.cpp", "intervals/src/partition.cpp", "intervals/src/segmentation.cpp", "intervals/src/dyadic_searcher.cpp", "intervals/src/scaled_predicate.cpp", "roughpy/src/intervals/interval.cpp", "roughpy/src/intervals/partition.cpp"],
  [("end point conventions", "intervals/src/interval.cpp"), ("sorted intermediates", "intervals/src/partition.cpp"), ("dyadic search", "intervals/src/dyadic_searcher.cpp")], (), ["Interval types, Partition, segment in Python and C++"])

p("C23", "Serialising and restoring any value gives back an equal value",
  "Pickling (or archiving) and restoring an interval, partition, dyadic, scalar, polynomial, tensor, Lie element or stream yields an object that is equal to the original and answers every query alike, in the same process or a fresh one, a truncated archive is rejected with an exception, and one with changed bytes is either rejected or restored as whatever value it then spells, without reading outside of live objects or ending the process.",
  ["inputs", "fault_sequences", "configurations"], "all values of all serialisable types, coefficient types and storages; all truncation points and byte corruptions of archives",
  "Tests round-trip one stream and a few intervals.",
  ["scalars/src/scalar/serialization.cpp", "scalars/src/scalar/raw_bytes.cpp", "scalars/src/scalar_serialization.cpp", "algebra/include/roughpy/algebra/algebra_base.h", "roughpy/src/algebra/setup_algebra_type.h", "streams/src/lie_increment_stream.cpp", "roughpy/src/streams/stream.cpp", "intervals/src/partition.cpp"],
  [("raw byte encoding of big numbers", "scalars/src/scalar/raw_bytes.cpp")], (), ["pickle protocol of Python types; C++ archives"])

p("C24", "No API use corrupts memory: misuse raises an exception",
  "No sequence of calls of the public Python interface, with arguments of any type, size, layout or nesting, reads or writes outside live objects, uses freed memory, overflows signed arithmetic, dereferences null, exhausts the stack or terminates the process; invalid requests raise an ordinary exception and leave the arguments and the library usable, and no call loses or gains references to its arguments.",
  ["inputs", "programs"], "all call sequences and arguments, valid and invalid",
  "Tests mostly take the valid path and run without sanitizers.",
  ["roughpy/src/roughpy_module.cpp", "roughpy/src/algebra/context.cpp", "roughpy/src/streams/stream.cpp", "roughpy/src/streams/streams.cpp", "roughpy/src/args/parse_data_argument.cpp", "roughpy/src/algebra/lie_key.cpp", "roughpy/src/scalars/scalar_type.cpp", "core/include/roughpy/core/check.h"],
  [("argument checking and exception translation", "core/include/roughpy/core/check.h")], (), ["the whole Python module under address and undefined-behaviour sanitizers"])

p("C25", "Shared contexts, bases and streams may be used from many threads at once",
  "Concurrent use of contexts, product and bracket caches, stream queries and context lookup from several threads is free of data races and gives every thread the same results as running alone.",
  ["schedules"], "all interleavings of context creation, products, brackets, expansions and stream queries on shared objects",
  "The tests are single-threaded.",
  ["algebra/src/context.cpp", "vendored/libalgebra_lite/shuffle_tensor.h", "vendored/libalgebra_lite/maps.cpp", "vendored/libalgebra_lite/registry.h", "vendored/libalgebra_lite/algebra/lie_multiplier.cpp", "vendored/libalgebra_lite/algebra/half_shuffle_multiplier.cpp", "roughpy/src/streams/stream.cpp", "roughpy/src/streams/function_stream.cpp", "streams/src/external_data_sources/sound_file_data_source.cpp", "streams/src/dyadic_caching_layer.cpp", "streams/src/dynamically_constructed_stream.cpp", "streams/src/tick_stream.cpp"],
  [("mutexes around caches and registries", "vendored/libalgebra_lite/registry.h")], [("caches", "lazily filled shared tables", "vendored/libalgebra_lite/maps.cpp")], ["C++ library under ThreadSanitizer"])

p("C26", "Generic values and arrays behave as the values of the number type they hold",
  "A dynamically typed value, or array of values, of any builtin number type, big integer or big rational has value semantics (copies are independent, moves leave objects that can be assigned or destroyed, nothing is freed twice or leaked), its arithmetic with values of the same type, its comparisons, hashes and mathematical functions agree with the number type (operations the type does not have and divisions of rationals by zero raise), fractions are reduced, an exact number that is printed is read back as the same value and text that is not a number is refused, and arrays keep their elements through resizing, reserving, copies and moves.",
  ["inputs", "programs", "histories"], "all number types x values (extremes, huge integers and rationals) x operation histories",
  "Tests check a few values per type and never add two rationals or compare two big integers.",
  ["platform/src/generics/value.cpp", "platform/src/generics/value_arithmetic.cpp", "platform/src/generics/value_compare.cpp", "platform/src/generics/value_math.cpp", "platform/src/generics/number_trait.cpp", "platform/src/generics/array.cpp", "platform/src/generics/multiprecision_types/rational_type.cpp", "platform/src/generics/multiprecision_types/integer_type.cpp", "platform/src/generics/multiprecision_types/rational_number.cpp"],
  [("inline/heap storage of values", "platform/src/generics/value.cpp"), ("capacity, size and storage of arrays", "platform/src/generics/array.cpp")], (), ["rpy::generics C++ interface"])

p("C27", "Scalar arrays, key arrays and streams own, share and convert data faithfully",
  "Copying, moving, slicing, borrowing, mutable borrowing, resizing and converting scalar arrays, keyed arrays and scalar streams preserves every element and key and keeps exactly the documented ownership: borrowed data is never freed or copied unasked, owned data is freed exactly once, a copy-constructed array shares the reference-counted storage as documented while an assigned copy or clone is independent, and a conversion preserves the value or is refused.",
  ["inputs", "programs", "histories"], "all sequences of array operations over all scalar types and sizes",
  "Tests build one array of two types.",
  ["scalars/src/scalar_array.cpp", "scalars/src/key_scalar_array.cpp", "scalars/src/key_scalar_stream.cpp", "scalars/src/scalar_stream.cpp", "scalars/include/roughpy/scalars/scalar_array.h", "platform/src/devices/buffer.cpp", "platform/src/alloc.cpp"],
  [("owned/borrowed state", "scalars/src/scalar_array.cpp"), ("convert_copy", "scalars/src/scalar_type.cpp")], (), ["rpy::scalars C++ interface under address sanitizer"])

p("C28", "Random generation is reproducible from its seed and has the right law",
  "A generator constructed or reseeded with a seed produces the same sequence every time for each generator and scalar type, splitting a request into parts gives the same numbers as one request (for normal draws, parts of even length), its state string identifies its state, uniform draws lie in the requested half-open ranges with equal probability, and normal draws have the requested mean and standard deviation; Brownian increments over disjoint grid intervals are independent normals with variance the interval's length.",
  ["inputs", "configurations", "histories"], "all seeds (single and multi-word), request sizes and splits, ranges, generators and scalar types",
  "Tests check moments of one seed and that a call returns.",
  ["scalars/src/random.cpp", "scalars/src/random/random_impl.cpp", "scalars/src/random/standard_random_generator.h", "streams/src/brownian_stream.cpp", "roughpy/src/streams/brownian_stream.cpp"],
  [("seed sequence handling", "scalars/src/random/standard_random_generator.h")], (), ["BrownianStream.with_generator; rpy::scalars::RandomGenerator"])

os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
with open("properties.jsonl", "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
