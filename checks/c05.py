import vf


def run(c):
    for b in vf.harnesses([("ident", ["GROUP=%d" % g]) for g in range(4)]):
        c.explore(b)
    return c.finish(
        "model_checking",
        "a state is one (decoder, wire identifier at each level) combination; each is offered with two contents and five "
        "continuations behind the inner and the outer element",
        {"types": 13, "decoder_identifiers_per_type": "9 single, 5 double",
         "wire_identifiers": "4 classes x 2 constructions x (0..%d, octet boundaries, 2^31.. 2^62 + offsets)" % (64 if c.thorough else 36),
         "double": "all outer x right inner, right outer x all inner, all pairs over small identifiers"})
