"""C28: random generators and Brownian streams, observed in a C++ harness."""
RULE = ("Generators are constructed, driven through random histories of uniform and normal requests, reseeded and "
        "restored from state strings, and every number is compared with the other copies'; the draws of large requests and "
        "the increments of Brownian streams over many seeds are compared with their law (moments, Kolmogorov-Smirnov distance, "
        "correlations) at bounds of six and a half standard deviations; a family that reports is a violation.")
ASSUMPTIONS = ["normal requests are split at even counts: the generator draws normals in pairs",
               "the excluded end of a uniform range can be reached by rounding only: a few draws per case are tolerated"]
MIN_CASES = 400


def programs(tier):
    m = 1 if tier == "quick" else 12
    return [("random", "asan",
             [("repro", 400 * m), ("split", 400 * m), ("uniform_law", 60 * m), ("normal_law", 60 * m), ("brownian_law", 60 * m)], 8)]
