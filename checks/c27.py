"""C27: scalar arrays, key arrays and scalar streams, observed in a C++ harness."""
RULE = ("Random histories of construction, copy, move, slice, borrow, write, conversion and destruction over pools of arrays of "
        "every element type; after every step each live array's elements, keys, ownership, constness and (for borrowed data) "
        "address are compared with a model; AddressSanitizer watches every access and LeakSanitizer every case; "
        "a family that reports is a violation.")
ASSUMPTIONS = ["copy construction of an owning array shares its reference-counted storage, as scalar_type.h documents; assignment makes an independent copy",
               "a moved-from array is destroyed or assigned to, not read"]
MIN_CASES = 400


def programs(tier):
    m = 1 if tier == "quick" else 20
    return [("arrays", "asan",
             [("history", 500 * m), ("history_int", 200 * m), ("convert", 500 * m), ("keyed", 400 * m), ("rows", 300 * m)], 8)]
