import vf


def run(c):
    for b in vf.harnesses([("seqof", ["GROUP=%d" % g]) for g in range(3)]):
        c.explore(b)
    return c.finish(
        "model_checking",
        "a state is one list value, one wire encoding with its outcome, or one triple of lists reached by a history; every "
        "list in the bound is encoded and decoded and compared with the X.690 reference, every edited encoding is decoded "
        "and its acceptance and elements compared with the reference, and all operation sequences on three lists are run",
        {"lists": "all lists of up to %s elements over 3-4 boundary values, all lengths up to %d and lengths whose content "
                  "crosses 127, 255 and 65535 octets; 8 list types" % (("6-8", 300) if c.thorough else ("4-6", 130)),
         "edits": "all single octet changes, insertions, deletions, truncations, pairs of marker octets, foreign elements at "
                  "every place, all marker strings of up to %d octets behind the elements" % (3 if c.thorough else 2),
         "histories": "depth %d, 24 operations, 3 kinds" % (5 if c.thorough else 4)})
