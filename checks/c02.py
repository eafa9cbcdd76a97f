import gen, corpus, vf
from asn import *
from fam import *


def run(c):
    bins = vf.harnesses([("decode", ["SUBJECT_GROUP=%d" % g]) for g in range(4)])
    for b in bins:
        c.explore(b)
    # generated types
    w = gen.World(c)
    for s in corpus.world(w, c.thorough):
        vs = s.all_values()
        ms = list(dict.fromkeys(s.encode(v) for v in vs if len(s.encode(v)) <= 80))
        ms = sorted(ms, key=len)
        ms = ms if len(ms) <= 4 else [ms[0], ms[len(ms) // 2], ms[-2], ms[-1]] if not c.thorough else ms[:6] + ms[-6:]
        for m in ms:
            s.cases.append("X %s %d %s" % (s.id, 32 if c.thorough else 16, gen.hx(m)))
        # the identifiers of the type and of what is in it, and lengths
        heads = set()
        for m in ms:
            heads |= set(tags_in(m))
        # every string that begins with the identifier of the type
        alphabet = sorted(heads)[:6]
        alphabet += [x for x in (0x00, 0x01, 0x02, 0x03, 0x80, 0x81, 0xff) if x not in alphabet]
        s.cases.append("Y %s %d %s" % (s.id, 5 if c.thorough else 4, gen.hx(bytes(alphabet))))
    w.run(2)
    return c.finish(
        "model_checking",
        "a state is one (decoder, outcome, resulting value) triple; each case decodes one octet string from a heap block "
        "of exactly its size under address and undefined-behaviour sanitizers, then prints, copies, moves, compares, "
        "encodes and reuses the object, and for built-in types repeats the decode with other octets behind the element",
        {"built-in types": "every decoder of harness/subjects_builtin.hpp: all short octet strings over an alphabet, all edits of "
                           "valid encodings (see harness/decode.cpp)",
         "generated types": "every type of lib/corpus.py: of up to %d encodings all truncations, all 256 substitutions of each octet, "
                            "of those of up to %d octets all substitutions of two neighbouring octets by 18 boundary octets; all "
                            "strings of up to %d octets over up to 13 octets (the identifiers in the type's encodings, lengths, ff)"
                            % ((12, 32, 5) if c.thorough else (4, 16, 4))})


def tags_in(m):
    while m:
        e = parse(m)
        if e is None:
            return
        yield m[0]
        if e.cons:
            yield from tags_in(e.content)
        m = m[len(e.raw):]
