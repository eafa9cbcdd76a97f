import vf


def run(c):
    c.explore(vf.harness("scalar"))
    return c.finish(
        "model_checking",
        "a state is one distinct encoding, or one tuple of the values of three objects; histories are all sequences of "
        "assignments, decodes, refused decodes and copies, compared with plain C++ values after every step",
        {"integers": "-%d..%d, 2^k-3..2^k+3 and negatives, every value of one octet over 00/ff octets" % ((70000,) * 2 if c.thorough else (1100,) * 2),
         "identifiers": 5, "contents": "all of 0..2 octets; 3..%d octets over 6 octets; 6..%d over 3; runs to 300 octets" % ((8, 10) if c.thorough else (5, 9)),
         "history_depth": 4 if c.thorough else 3, "history_objects": 3, "histories": "INTEGER, BOOLEAN, ENUMERATED x 2 identifier pairs"})
