import vf


def run(c):
    c.explore(vf.harness("variant"))
    return c.finish(
        "model_checking",
        "a state is the pair of values two choices hold (alternative and content, one alternative holding a choice); "
        "histories are all sequences of emplacements, assignments (of values, of each other, of themselves and of parts of "
        "themselves), copies, moves, swaps and decodes; alternatives count their instances, and after every history index, "
        "accessors, encoding, comparisons, copies and the set of living alternatives are compared with the reference",
        {"histories": "depth %d, 56 operations, static and dynamic storage" % (4 if c.thorough else 3)})
