import vf


def run(c):
    for b in vf.harnesses([("optional", ["GROUP=%d" % g]) for g in range(3)]):
        c.explore(b)
    return c.finish(
        "model_checking",
        "a state is the pair of values two wrappers hold; histories are all sequences of assignments, emplacements, resets, "
        "copies, moves, swaps and decodes (from a view, from an iterator, of an absent component, of another component) on "
        "them; after every history presence, value, comparisons, copies and the encoding are compared with the reference",
        {"histories": "depth %d over 8 element types in static and dynamic storage, 5 defaults (depth 3 for the larger "
                      "half), 57-75 operations each" % (4 if c.thorough else 3)})
