// C02: every decoder on every octet string of the bound. The subjects are chosen at build time.
#ifdef GEN_SUBJECTS
#include GEN_SUBJECTS
#else
#include "subjects_builtin.hpp"
#endif

using vf::Bytes;
using vf::hex;

static vf::Exact exact, scratch;
static const Subject* S;
static std::set<uint64_t> seen; // decoded inputs already explored for this subject

struct Outcome
{
    bool        ok = false;
    Bytes       enc;
    std::string text;
    bool        operator==(const Outcome& o) const { return ok == o.ok && enc == o.enc && text == o.text; }
};

static Outcome exercise(Obj& o, absl::Span<const uint8_t> in, const Bytes& what, const char* how)
{
    Outcome r;
    r.ok = o.decode(in);
    run.transitions++;
    auto say = [&](const char* key, const std::string& d) {
        run.fail(key, S->name + " <- [" + hex(what) + "] " + how + ": " + d);
    };
    if (!encode_exact(o, r.enc))
        say("unusable-after-decode", "does not encode into its own encoded length");
    run.compared++;
    try
    {
        r.text = o.print();
    }
    catch (const std::exception& e)
    {
        say("exception", std::string("printing throws ") + e.what());
    }
    run.transitions += 2;
    return r;
}

static void one(const Bytes& s)
{
    auto in = exact.put(s);
    auto o  = S->make();
    auto r  = exercise(*o, in, s, "fresh");
    auto say = [&](const char* key, const std::string& d) { run.fail(key, S->name + " <- [" + hex(s) + "]: " + d); };

    const ref::Elem e = ref::parse(s);
    run.compared++;
    if (!e.ok && r.ok && !S->absent_ok)
        say("accepted-incomplete", "success although the octets hold no complete element");

    // usable: copies, moves, comparisons, encoding, decoding again
    auto  c = o->clone();
    Bytes e2;
    run.transitions += 6;
    run.compared += 3;
    if (!encode_exact(*c, e2) || e2 != r.enc)
        say("copy", "a copy encodes to [" + hex(e2) + "], the object to [" + hex(r.enc) + "]");
    auto d = S->make();
    d->assign(*o);
    if (!encode_exact(*d, e2) || e2 != r.enc)
        say("assigned-copy", "a copy encodes to [" + hex(e2) + "], the object to [" + hex(r.enc) + "]");
    try
    {
        (void)o->equals(*c);
    }
    catch (const std::exception& x)
    {
        say("exception", std::string("comparing throws ") + x.what());
    }
    auto m = c->move();
    if (!encode_exact(*m, e2) || e2 != r.enc)
        say("moved", "a moved object encodes to [" + hex(e2) + "], the object to [" + hex(r.enc) + "]");
    // the object can be decoded into again: it then holds what a fresh object would
    static const Subject* seed_of = nullptr;
    static Outcome        seed_outcome;
    const Bytes&          seed = S->seeds.back();
    if (seed_of != S)
    {
        auto f       = S->make();
        seed_outcome = exercise(*f, scratch.put(seed), seed, "seed");
        seed_of      = S;
        if (!seed_outcome.ok)
            say("seed", "a valid encoding is refused: [" + hex(seed) + "]");
    }
    Outcome again = exercise(*o, scratch.put(seed), seed, "after the above");
    run.compared++;
    if (!(again == seed_outcome))
        say("decode-after", "decoding a valid encoding afterwards gives a different outcome");

    // the outcome does not depend on the octets behind the element
    if (e.ok)
        for (int t = 0; t < 2; t++)
        {
            Bytes x(s.begin(), s.begin() + static_cast<long>(e.total()));
            if (t == 0)
            {
                if (x.size() == s.size())
                    continue;
            }
            else
                ref::cat(x, {0x02, 0x01, 0x2a, 0xff, 0x1f, 0x80});
            auto    f  = S->make();
            Outcome r2 = exercise(*f, scratch.put(x), x, "other tail");
            run.compared++;
            if (!(r2 == r))
                say("depends-on-tail", "the outcome changes with the octets behind the element");
        }
    run.state(vf::hash_bytes(r.enc, vf::hash_bytes(S->name.data(), S->name.size(), r.ok ? 7 : 8)));
    run.stat(r.ok ? "accepted" : "refused", 1);
}

static void cs(const Bytes& s)
{
    if (!seen.insert(vf::hash_bytes(s)).second)
        return;
    if (run.next())
    {
        run.note(S->name + " <- " + hex(s));
        if (run.idx % 60013 == 11)
            run.sample(S->name + " <- [" + hex(s) + "]");
        one(s);
    }
}

int main(int argc, char** argv)
{
    run.init(argc, argv);
    const Bytes all   = vf::all_bytes();
    const bool  thr   = run.thorough;
    auto        subs  = subjects();
    for (const Subject& subj : subs)
    {
        S = &subj;
        seen.clear();
        // octets that matter to this type: identifier octets of its encodings, lengths, boundary contents
        std::set<uint8_t> ab = {0x00, 0x01, 0x02, 0x03, 0x7f, 0x80, 0x81, 0xff};
        for (const Bytes& s : subj.seeds)
            for (size_t i = 0; i < s.size() && i < (thr ? 5u : 3u); i++)
                ab.insert(s[i]);
        Bytes alphabet(ab.begin(), ab.end());
        vf::for_strings(all, 0, 1, cs);
        if (thr)
            vf::for_strings(all, 2, 2, cs);
        vf::for_strings(alphabet, 2, alphabet.size() > 12 ? (thr ? 4 : 3) : (thr ? 5 : 4), cs);
        // this type's header around every short content
        std::set<Bytes> headers;
        for (const Bytes& s : subj.seeds)
        {
            ref::Elem e = ref::parse(s);
            if (e.ok)
                headers.insert(Bytes(s.begin(), s.begin() + static_cast<long>(e.id_len)));
        }
        const Bytes ca = {0x00, 0x01, 0x02, 0x04, 0x10, 0x1f, 0x2b, 0x2d, 0x2e, 0x30, 0x31, 0x39, 0x40, 0x5a, 0x7f, 0x80,
                          0x81, 0x83, 0xff};
        for (const Bytes& h : headers)
        {
            auto with = [&](const Bytes& content) {
                Bytes b = h;
                ref::cat(b, ref::length(content.size()));
                ref::cat(b, content);
                cs(b);
            };
            vf::for_strings(all, 0, thr ? 2 : 1, with);
            vf::for_strings(ca, 2, thr ? 4 : 3, with);
        }
        // edits of valid encodings
        for (const Bytes& s : subj.seeds)
        {
            cs(s);
            for (size_t n = 0; n < s.size(); n++)
            {
                cs(Bytes(s.begin(), s.begin() + static_cast<long>(n)));
                cs(Bytes(s.begin() + static_cast<long>(n), s.end()));
            }
            const size_t lim = s.size() > 40 ? 12 : s.size();
            for (size_t i = 0; i < lim; i++)
            {
                for (uint8_t v : all)
                {
                    Bytes b = s;
                    b[i]    = v;
                    cs(b);
                    if (s.size() <= 24 || i < 6)
                    {
                        Bytes c = s;
                        c.insert(c.begin() + static_cast<long>(i), v);
                        cs(c);
                    }
                }
                Bytes d = s;
                d.erase(d.begin() + static_cast<long>(i));
                cs(d);
                // two edits
                if (s.size() <= 24)
                    for (size_t j = i + 1; j < s.size(); j++)
                        for (uint8_t v : (thr ? ca : Bytes{0x00, 0x02, 0x7f, 0x80, 0xff}))
                            for (uint8_t w : (thr ? ca : Bytes{0x00, 0x01, 0x81, 0xff}))
                            {
                                Bytes b = s;
                                b[i]    = v;
                                b[j]    = w;
                                cs(b);
                            }
            }
            // every pair of seeds, one after the other, and each seed as the content of another's header
            for (const Bytes& t : subj.seeds)
            {
                Bytes b = s;
                ref::cat(b, t);
                cs(b);
                for (const Bytes& h : headers)
                {
                    Bytes w = h;
                    ref::cat(w, ref::length(b.size()));
                    ref::cat(w, b);
                    cs(w);
                }
            }
        }
    }
    run.stat("decoders", run.shard == 0 ? subs.size() : 0);
    return run.finish();
}
