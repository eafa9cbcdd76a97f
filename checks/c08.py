import vf


def run(c):
    c.explore(vf.harness("oid"))
    return c.finish(
        "model_checking",
        "a state is one arc list, one content or one pair of held values; every arc list is encoded, decoded and read arc by "
        "arc, every content is decoded, and all operation histories on two objects are compared with lists of numbers",
        {"arc_lists": "6 roots x 30 second arcs x 18 x %d, all single arcs to %d, lengths to 140" % ((18, 20000) if c.thorough else (5, 400)),
         "contents": "all of 0..2 octets, 3..%d octets over 10 octets, subidentifiers of 1..23 octets" % (6 if c.thorough else 5),
         "history_depth": 4 if c.thorough else 3, "identifiers": 3})
