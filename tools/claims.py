SAN = "ASan+UBSan execution"
CLAIMS = {
 "C01": ("online model-based monitor: random operation programs under " + SAN, "exact reference model in rational arithmetic, checked after every statement on every live object; bounded shapes and program lengths"),
 "C02": ("online model-based monitor: power-series oracle under " + SAN, "exact truncated series oracle; sampled operands, bounded shapes"),
 "C03": ("online model-based monitor: interleaving and pairing oracles under " + SAN, "exact oracle; sampled operands, all mixtures of class and storage"),
 "C04": ("online model-based monitor: commutator oracle over random Lie programs under " + SAN, "exact oracle; sampled operands, bounded shapes, random cache orders"),
 "C05": ("exhaustive sweep of sampled basis configurations with closed-form oracles under " + SAN, "every key of each swept configuration up to a size cap; configurations are a fixed list"),
 "C06": ("online model-based monitor: word-expansion and BCH oracles under " + SAN, "exact oracle; sampled elements and sequences, exhaustive over the Hall elements of listed shapes"),
 "C07": ("online monitor over a registry model of contexts and a key-by-key conversion oracle under " + SAN, "exact oracle for every conversion channel; sampled configurations and elements"),
 "C08": ("online model-based monitor: all read channels compared with one model after every step, aliasing monitor under " + SAN, "exact oracle; sampled elements, bounded histories"),
 "C09": ("online model-based monitor: rational, polynomial and IEEE oracles over random scalar programs under " + SAN, "exact oracle; sampled operands, programs of up to 18 steps"),
 "C10": ("online differential monitor: every container and memory layout against the nested list, source bytes compared, under " + SAN, "exact oracle; sampled containers, element types and layouts"),
 "C11": ("online model-based monitor: CBH of the covered increments recomputed independently for every query under " + SAN, "exact rational reference for rational streams, error-bounded for floating ones; sampled data and queries"),
 "C12": ("online checker of algebraic identities over observed signatures of every stream kind under " + SAN, "exact for rational and polynomial streams, error-bounded for floating ones; sampled data, cuts and query orders"),
 "C13": ("differential monitor: every answer of a queried stream against fresh streams and its own earlier answers under " + SAN, "bit-exact comparison; sampled query and mutation histories"),
 "C14": ("online model-based monitor: scaled-piece and partition oracles under " + SAN, "exact for dyadic pieces, error-bounded otherwise; sampled layouts"),
 "C15": ("online model-based monitor: event-sequence oracle over random spellings under " + SAN, "exact for rational streams; sampled event sequences, spellings and queries"),
 "C16": ("online model-based monitor: channel-list model compared after every edit under " + SAN, "exact model; sampled edit histories"),
 "C17": ("online model-based monitor: function, decoded-sample and carried-value oracles under " + SAN, "exact for rational streams, error-bounded otherwise; sampled functions, files and queries"),
 "C18": ("online differential monitor: restricted streams against the original over intersections under " + SAN, "bit-exact comparison; sampled restrictions and queries"),
 "C19": ("online model-based monitor: derivative of the exponential series and product rule under " + SAN, "exact for rational and polynomial streams; sampled perturbations; the multi-interval recursion pinned by an existing test is a known finding"),
 "C20": ("online model-based monitor: exact rational arithmetic oracle under " + SAN, "exact oracle; sampled and boundary values"),
 "C21": ("online checker of a trace specification: greedy tiling recomputed in exact arithmetic under " + SAN, "exact oracle; sampled and boundary intervals"),
 "C22": ("online model-based monitor: half-open set oracle in exact arithmetic under " + SAN, "exact oracle; sampled intervals, edit histories and predicates"),
 "C23": ("online round-trip monitor in this and in fresh processes, and byte-level fault injection on archives, under " + SAN, "bit-exact comparison of every reading; sampled values and histories; every cut of short archives and sampled byte changes"),
 "C24": ("misuse campaign: well-formed calls of the whole Python interface with hostile arguments, watched by " + SAN + ", with monitors of exception types, of refused calls that change their arguments, of reference counts and of the library's later answers", "sampled calls and hostile values of every kind; every public callable found by inspection is reached"),
 "C25": ("race detection (ThreadSanitizer) over scripts of concurrent operations in fresh processes, every answer compared with the same work done alone; concurrent Python queries compared under ASan+UBSan execution with a deadlock watch", "the interleavings that ran, happens-before race detection; sampled scripts of 2 to 8 threads"),
 "C26": ("native online model-based monitor: values and arrays against the C++ type they hold, or boost cpp_rational, after every step of a history, with leak detection, under " + SAN, "exact oracle; sampled histories over twelve number types; conversions between generic types are outside the property"),
 "C27": ("native online model-based monitor: element and ownership model of scalar arrays, keyed arrays and scalar streams, with leak detection, under " + SAN, "exact model; sampled operation histories over all element types"),
 "C28": ("native online monitor: repeated and split draws compared bit for bit, and a statistical oracle with fixed error rate, under " + SAN, "exact for reproducibility; statistical bounds far outside chance for the laws"),
}
NOT = {}

