"""C26: generic values and arrays, observed in a C++ harness."""
RULE = ("random histories over pools of generic values and arrays of one number type (ten builtin types, big integers, big "
        "rationals): every way of making a value, copies, moves, assignments, arithmetic through values, references and traits, "
        "resizing and reserving arrays; after every step every value and element is compared with a reference held in the C++ type "
        "(builtin) or in boost cpp_rational (big numbers), with comparisons, hashes, printing and parsing; plus the mathematical "
        "functions; under address and leak sanitizers")
ASSUMPTIONS = ["operations that are undefined in the C++ type (integer overflow, division of a builtin integer by zero) are not made",
               "values of different types are not mixed: conversions between generic types are outside the property"]
MIN_CASES = 1000


def programs(tier):
    m = 1 if tier == "quick" else 15
    return [("generics", "asan", [("walk", 4200 * m), ("functions", 2800 * m), ("arrays", 4200 * m)], 8)]
