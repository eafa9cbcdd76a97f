import vf


def run(c):
    for b in vf.harnesses([("string", ["GROUP=%d" % g]) for g in range(3)]):
        c.explore(b)
    return c.finish(
        "model_checking",
        "a state is one triple of string values; histories are all sequences of operations on two strings of one type and "
        "one of another; after every history all accessors, comparisons and the encoding are compared with std::string",
        {"histories": "depth 3 over lengths 0,3,98,127,128,256 (73 operations)" + ("; depth 4 over lengths 0,98,128" if c.thorough else ""),
         "pairs": "every length of %s to every other by every operation, 7 types/identifiers" %
         ("31 lengths to 65536" if c.thorough else "11 lengths to 256")})
