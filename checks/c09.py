import vf


def run(c):
    for b in vf.harnesses([("real", ["GROUP=%d" % g]) for g in range(3)]):
        c.explore(b)
    return c.finish(
        "model_checking",
        "a state is one double, one content or one triple of held values; every double is encoded, checked against an "
        "independent reading of X.690 8.5 and decoded; every content is decoded and compared with that reading",
        {"doubles": "2 signs x 2048 exponents x %d mantissas, all subnormals with two bits, small integers and fractions" % (1391 if c.thorough else 13),
         "contents": "all of 0..2 octets; 3..%d octets over 15 octets; 128 first octets x ~100 exponents x %d mantissas; decimal strings to 5 characters" % ((5, 534) if c.thorough else (4, 22)),
         "history_depth": 4 if c.thorough else 3})
