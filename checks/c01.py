import vf


def run(c):
    b = vf.harness("header")
    c.explore(b)
    return c.finish(
        "model_checking",
        "a state is one distinct encoded header (or wrapped element); every case runs all encoders, predictors and "
        "extractors on it for every buffer size",
        {"classes": 4, "constructions": 2,
         "tags": "0..%d, all powers of two, 2^7k-2..2^7k+2, INT64_MAX-2.." % (39999 if c.thorough else 299),
         "lengths": "0..%d, all powers of two, 2^8k-2..2^8k+2, UINT64_MAX-2.." % (69999 if c.thorough else 599),
         "buffer_sizes": "0..encoding+2", "truncations": "all"})
