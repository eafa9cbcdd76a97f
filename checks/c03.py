import vf


def run(c):
    b = vf.harness("view")
    c.explore(b)
    return c.finish(
        "model_checking",
        "a state is one distinct element (all its octets) exposed by a view; each case views one octet string, compares "
        "validity, fields, extents, re-encoding into five buffer sizes and all children recursively with the reference parse",
        {"octet_strings": "all of length 0..%d; all of length 3..%d over 26 octets; all of length %s over 10 octets" %
         ((3, 5, "6..7") if c.thorough else (2, 4, "5..6")),
         "identifier_octets": "2..13", "length_octets": "1..128, boundary values, content lengths to 301",
         "trees": "all element trees to 4 (thorough 5) nodes, content lengths off by -1..+1; to 3 nodes off by -3..+3"})
