import vf


def run(c):
    for b in vf.harnesses([("container", ["GROUP=%d" % g]) for g in range(2)]):
        c.explore(b)
    return c.finish(
        "model_checking",
        "a state is the pair of elements two containers hold; histories are all sequences of content assignments, "
        "resizes, decodes, constructions, copies, moves, self and part-of-self assignments; after every history validity, "
        "identifier, length octets, content, copies and the encoding into every buffer size are compared with a reference "
        "element, and both containers' octets are shown to be their own",
        {"histories": "depth %d over BerContainer, fixed-identifier and small fixed-identifier containers"
                      % (4 if c.thorough else 3)})
