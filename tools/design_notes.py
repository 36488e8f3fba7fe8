HEAD = """
# Runtime monitoring of RoughPy

The family studied is runtime monitoring and sanitizers. Every check here runs the real code, rebuilt with instrumentation from
/repo's current working tree, under generated workloads, and lets an oracle judge what the execution did. `properties.jsonl` lists
the properties, `MANIFEST.json` the checks, `known_findings.txt` the genuine defects (repaired and not). DESIGN.md is written by
`tools/gen_design.py` from the check modules, so that what it says of them is what they do.

## How a check runs

`python3 check.py C11` (quick), `VERIF_TIER=thorough python3 check.py C11` (about eight times the cases, more of the expensive shapes),
`python3 check.py --replay replays/<file>` (one recorded case again).

1. **Build.** `lib/build.py` mirrors /repo by content into `.build/src` and builds the Python extension and its libraries there with
   GCC, `-fsanitize=address,undefined -fno-sanitize-recover=all` (`asan`), or `-fsanitize=thread` (`tsan`). Only changed files are
   rebuilt. UBSan's `vptr` check is off: it needs type information across shared libraries with hidden symbols and reports sound code.
   `harness/` holds native programs (own CMake file that takes /repo's sources) for parts the Python interface does not reach.
2. **Cases.** A check module (`checks/cNN.py`) states families of cases. Case number k of a family is a function of (seed, property,
   family, k) alone, so every case can be replayed by itself. Cases are spread over processes, one per core.
3. **Monitor.** A case drives the library and calls `c.check(condition, key, message)` at every observation point. The condition
   always comes from an independent model (`lib/ref.py`: the tensor and Lie algebra over exact rationals and polynomials by words;
   `checks/sm.py`: streams as lists of timed increments; `harness/vp.hpp`: native model), never from the library. Sanitizer reports,
   signals, `terminate`, and hangs (90 s without progress, tried twice) are violations of the case that was running; the driver
   restarts the process with the remaining cases.
4. **Verdict.** Failing keys listed in `known_findings.txt` are printed as KNOWN-FINDING; any other gives VIOLATION and exit 1, with a replay file.
   Too few cases, a harness error or a failed build give other exit codes, never a silent pass.
5. **Evidence.** `evidence/<id>.json` counts cases per family, oracle evaluations, and distinct non-trivial cases (by hash of the
   generated input, where the module's rule says what non-trivial means), with samples of inputs in words.

Why this reaches what the tests cannot: the tests assert a few values of mostly small dense double elements. Here the inputs cross
every coefficient type, storage kind, depth mixture, memory layout, convention and call history; the oracle is total (all
coefficients, all views, all live objects after every statement), exact for rational and polynomial coefficients, and with a forward
error bound for floating ones; and the sanitizers watch every access on the way.

**Cost.** First build about 200 s on 8 cores (setup_cmd), then 5-90 s per quick check; thorough 1-10 min each.

**No hooks in /repo** were needed: the monitors observe public interfaces (Python and C++). MANIFEST.json has no `hooks`.

**Levels.** Everything is exploration (sampled), apart from the sweeps in C05 and C06 that enumerate whole bases of listed shapes. What
passes is "held on everything explored", with the counts in the evidence.

**What this technique does not reach here:** inputs of sizes that do not fit the time (depth above about 10, width above about 20,
dissection depths above 24); polynomials in `platform/src/generics/polynomial_type` and RoughPyComputeModule are not compiled by the
repository's own build, so nothing runs them; the GPU/OpenCL device code has no device here.
"""

NOTES = {
 "C01": "Programs of up to 30 statements over a pool of live tensors, every storage and coefficient type, aliased operands included; all live objects are compared after each statement, so a write through a shared buffer shows wherever it lands. In-place forms, fused forms (`add_mul`, `sub_scal_div`, ...) and operators each have their own oracle expression.",
 "C03": "Half-shuffle conventions were settled from the code and the identities, and only the sum identity is required when constant terms are present.",
 "C05": "TensorKey multiplication order is pinned by an existing test and is a known finding.",
 "C09": "An early false alarm came from comparing float32 results with double rounding; the model now rounds each operation to its type.",
 "C10": "False alarm corrected: rows mixing floats with Python integers of more than 64 bits are refused or converted depending on the first item; the property promises neither, so the check accepts an exception there.",
 "C11": "The property was corrected twice to what the library documents and its repairs do: a query finer than the stream sees an increment at the left end of its cell, and a query reaching an end of the support takes in everything up to that end. Two data-loss defects behind these were repaired (2bf27a6, 2eccd73).",
 "C12": "For streams generated on demand the identities hold once the accuracy is the finest asked for so far; the property says so.",
 "C14": "Simplification is compared on grid-aligned partitions only: elsewhere the simplified stream has rounded data by design.",
 "C17": "A function that raises makes the query raise (the exception type is not promised); afterwards the stream must answer correctly. Sound files are written by the check itself in WAV, AU and AIFF, 8 to 64 bits, and the damaged ones need only be refused or give a stream that can be queried (libsndfile accepts some plain text as MPEG audio).",
 "C23": "Streams are pickled with their caches in the working folder; the check runs in scratch folders, removes, moves and pollutes that cache. Damaged archives are loaded in forked children so that every death is attributed to one blob; reports about truth-value bytes (read by the archive library) and memory requests are put aside.",
 "C24": "Some of what ASan reports for deliberate misuse lies in pybind11 and not in the library (objects made by calling `__new__` alone, `None` as the object of an unbound call, pickle protocols 0 and 1): those calls are not made. Calls whose honest answer is astronomically large (bases of width 120 at depth 5, powers of 10^9) are not made either. Repairs found this way are listed in `known_findings.txt`.",
 "C18": "False alarm corrected: intersections whose length is a subnormal number have no dyadic expansion at double precision and are not generated.",
 "C19": "For sequences of intervals an existing test pins a recursion that leaves out the earlier signatures; that single key is a known finding, and the check still compares with the pinned recursion so that any other change is reported.",
 "C20": "False alarm corrected: rebasing to a multiplier of exactly -2^63 may be refused.",
 "C27": "LeakSanitizer runs at the end of every case. The property was refined: copy construction shares reference-counted storage, as scalar_type.h documents, while assignment clones.",
 "C26": "The property covers operations within one number type. Conversions between generic types (the tables that choose a conversion confuse source and target, exactness flags are inverted, some helpers do not compile when used) and the polynomial and mpfr types are unfinished in the library and nothing in it calls them; they were left out rather than half repaired. Within one type the first runs found thirteen defects, all repaired: big integers compared equal when different, rationals added the left operand to itself, moves freed objects twice, growing an array assigned to unconstructed objects.",
 "C28": "Laws are tested at six and a half standard deviations (false alarm probability below 1e-9 per bound, seeds fixed). The property was refined: normal draws come in pairs, so only even splits agree.",
}

KNOWN = """
## Genuine defects

`known_findings.txt` lists every defect found with its repair commit ("fixed") and those recorded instead of repaired ("known"). The known ones are all behaviour
that an existing test expects, so that a repair would break the repository's own suite:

- C05 `tb.concat.reversed`: TensorKey product reverses its operands (tests/test_tensor_functions.py).
- C02 `Log.deep`: the pure-Python `tensor_functions.Log` inherits that order and is wrong from depth 3.
- C08 `array.sparse`: `numpy.array` of a sparse tensor is all zeros (tests/algebra/test_free_tensor.py).
- C19 `list.earlier_signatures`: the product rule leaves out earlier signatures (tests/streams/test_lie_increment_path.py).

Each is identified by its exact failure key; any other deviation in the same place has another key and is reported.

## Alarms that were the checks' fault

Corrected in the machinery or the property, never listed as findings: query end points one subnormal apart; time differences computed in
floating point by the library and exactly by the model; Python integers above 64 bits in mixed rows (C10); rebasing to -2^63 (C20);
`degree()` of dense storage (C08); odd splits of normal draws (C28); shared storage of copied arrays (C27); plain text accepted by libsndfile (C17);
`vptr` reports of UBSan across shared libraries.
"""
