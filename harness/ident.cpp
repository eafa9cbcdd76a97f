// C05: every decoder identifier against every wire identifier of the bound, at both levels. GROUP (0..3) selects types.
#include "subject.hpp"

using namespace fast_ber;
using vf::Bytes;
using vf::hex;

static vf::Exact exact;

enum class Colour
{
    red,
    green = 5
};
inline std::ostream& operator<<(std::ostream& os, Colour c) { return os << static_cast<int>(c); }

struct WireId
{
    int      cls;
    bool     constructed;
    uint64_t tag;
};
static Bytes wire(const WireId& w, const Bytes& c) { return ref::tlv(w.cls, w.constructed, w.tag, c); }

template <Class C, Tag T>
std::vector<WireId> own(Id<C, T>, bool k)
{
    return {{static_cast<int>(C), k, static_cast<uint64_t>(T)}};
}
template <typename O, typename I>
std::vector<WireId> own(DoubleId<O, I>, bool k)
{
    auto v = own(O{}, true);
    auto w = own(I{}, k);
    v.insert(v.end(), w.begin(), w.end());
    return v;
}

static std::vector<uint64_t> tags(bool thorough)
{
    std::vector<uint64_t> t;
    for (uint64_t i = 0; i <= (thorough ? 64u : 36u); i++)
        t.push_back(i);
    for (uint64_t i : {127u, 128u, 129u, 160u, 161u, 255u, 256u, 287u, 16383u, 16384u, 16385u, 65541u})
        t.push_back(i);
    for (int k : {31, 32, 33, 40, 62})
        for (uint64_t d : {0u, 1u, 2u, 5u, 31u})
            t.push_back((uint64_t(1) << k) + d);
    return t;
}

static bool same(const WireId& a, const WireId& b) { return a.cls == b.cls && a.constructed == b.constructed && a.tag == b.tag; }
static std::string show(const WireId& w)
{
    static const char* n[] = {"UNIVERSAL ", "APPLICATION ", "", "PRIVATE "};
    return std::string("[") + n[w.cls] + std::to_string(w.tag) + (w.constructed ? "]c" : "]p");
}

struct Content
{
    Bytes bytes;
};

// the only code that is instantiated per type: decode both ways, and encode what was decoded
struct Got
{
    bool  r1, r2;
    Bytes e1, e2;
};
template <typename T>
Bytes encoding(const T& t)
{
    Bytes                      got(t.encoded_length());
    std::unique_ptr<uint8_t[]> o(new uint8_t[got.size()]);
    auto                       r = t.encode(absl::Span<uint8_t>(o.get(), got.size()));
    got.assign(o.get(), o.get() + (r.success ? got.size() : 0));
    return got;
}
template <typename T>
Got run_decoder(absl::Span<const uint8_t> in)
{
    T   t, u;
    Got g;
    g.r1 = t.decode(BerView(in)).success;
    g.r2 = decode(in, u).success;
    if (g.r1 && g.r2)
    {
        g.e1 = encoding(t);
        g.e2 = encoding(u);
    }
    return g;
}

struct Tester
{
    Got (*decoder)(absl::Span<const uint8_t>);
    std::string          name;
    std::vector<WireId>  id;
    Content              first, second;

    void check(const Bytes& b, bool expect, const Content& c, const std::string& what)
    {
        Got g = decoder(exact.put(b));
        run.transitions += 2;
        run.compared += 2;
        if (g.r1 != expect || g.r2 != expect)
            run.fail(expect ? "own-identifier-refused" : "foreign-identifier-accepted",
                     name + " <- " + what + " [" + hex(b) + "] is " + (g.r1 ? "accepted" : "refused"));
        if (expect && g.r1 && g.r2)
        {
            // the content it took is the one it sends
            Bytes want = wire(id.back(), c.bytes);
            if (id.size() == 2)
                want = wire(id[0], want);
            for (const Bytes* got : {&g.e1, &g.e2})
                if (*got != want)
                    run.fail("wrong-content", name + " <- " + what + " [" + hex(b) + "] encodes to [" + hex(*got) +
                                                  "], expected [" + hex(want) + "]");
        }
    }

    void all()
    {
        const auto ts = tags(run.thorough);
        // the element carrying the content, with every identifier
        std::vector<WireId> ids;
        for (int c = 0; c < 4; c++)
            for (int k = 0; k < 2; k++)
                for (uint64_t t : ts)
                    ids.push_back({c, k == 1, t});
        std::vector<Bytes> tails = {{}, {0x00}, {0xff, 0xff}, ref::tlv(0, false, 2, {42}), wire(id.back(), second.bytes)};
        if (id.size() == 1)
        {
            for (const WireId& w : ids)
                if (run.next())
                {
                    run.note(name + " <- " + show(w));
                    for (const Content* c : {&first, &second})
                        for (const Bytes& tail : tails)
                        {
                            if (!run.thorough && !same(w, id[0]) && (c != &first || (&tail != &tails[0] && &tail != &tails[4])))
                                continue;
                            Bytes b = wire(w, c->bytes);
                            ref::cat(b, tail);
                            check(b, same(w, id[0]), *c, show(w));
                        }
                    run.state(name + show(w));
                    if (run.idx % 9001 == 3)
                        run.sample(name + " <- " + show(w));
                }
            // its own element inside another, and not alone
            if (run.next())
                for (int c = 0; c < 4; c++)
                {
                    Bytes in = wire(id[0], first.bytes);
                    WireId o{c, true, 0};
                    if (!same(o, id[0]))
                        check(wire(o, in), false, first, "wrapped in " + show(o));
                    check({}, false, first, "nothing");
                }
            // identifiers written in more octets than needed are the same identifier
        }
        else
        {
            // every outer identifier around the right inner one, every inner identifier inside the right outer one, and
            // all pairs over the small identifiers
            std::vector<WireId> small;
            for (int c = 0; c < 4; c++)
                for (int k = 0; k < 2; k++)
                    for (uint64_t t : {uint64_t(0), uint64_t(1), uint64_t(5), id[0].tag, id[1].tag})
                    {
                        WireId w{c, k == 1, t};
                        bool   dup = false;
                        for (const WireId& x : small)
                            dup = dup || same(x, w);
                        if (!dup)
                            small.push_back(w);
                    }
            std::vector<std::pair<WireId, WireId>> pairs;
            for (const WireId& w : ids)
            {
                pairs.push_back({w, id[1]});
                pairs.push_back({id[0], w});
            }
            for (const WireId& w : small)
                for (const WireId& v : small)
                    pairs.push_back({w, v});
            for (auto& p : pairs)
                if (run.next())
                {
                    const bool        ok   = same(p.first, id[0]) && same(p.second, id[1]);
                    const std::string what = show(p.first) + show(p.second);
                    run.note(name + " <- " + what);
                    for (const Content* c : {&first, &second})
                        for (const Bytes& t1 : tails)
                        {
                            if (!run.thorough && !ok && (c != &first || (&t1 != &tails[0] && &t1 != &tails[4])))
                                continue;
                            Bytes in = wire(p.second, c->bytes);
                            ref::cat(in, t1); // octets behind the inner element, still inside the outer one
                            Bytes b = wire(p.first, in);
                            check(b, ok, *c, what + " inner tail [" + hex(t1) + "]");
                        }
                    for (const Bytes& t2 : tails)
                    {
                        if (!run.thorough && !ok && &t2 != &tails[4])
                            continue;
                        Bytes b = wire(p.first, wire(p.second, first.bytes));
                        ref::cat(b, t2);
                        check(b, ok, first, what + " outer tail [" + hex(t2) + "]");
                    }
                    run.state(name + what);
                }
            if (run.next())
            {
                check(wire(id[0], {}), false, first, "empty outer element");
                check(wire(id[1], first.bytes), same(id[0], id[1]) && false, first, "inner element alone");
                Bytes foreign_first = ref::tlv(3, false, 9, {1});
                ref::cat(foreign_first, wire(id[1], first.bytes));
                check(wire(id[0], foreign_first), false, first, "a foreign element before the inner one");
                Bytes cut = wire(id[1], first.bytes);
                cut.pop_back();
                if (!first.bytes.empty())
                    check(wire(id[0], cut), false, first, "truncated inner element");
                // truncated outer element
                Bytes whole = wire(id[0], wire(id[1], first.bytes));
                for (size_t n = 0; n < whole.size(); n++)
                    check(Bytes(whole.begin(), whole.begin() + static_cast<long>(n)), false, first, "truncated");
            }
        }
        run.stat("decoders", run.shard == 0 ? 1 : 0);
    }
};

template <typename T>
void test(const std::string& n, bool constructed, const Content& a, const Content& b)
{
    Tester t;
    t.decoder = run_decoder<T>;
    t.id     = own(typename T::AsnId{}, constructed);
    t.name   = n;
    for (const WireId& w : t.id)
        t.name += " " + show(w);
    t.first  = a;
    t.second = b;
    t.all();
}

template <typename T>
struct Obj_ : T
{
    using T::T;
    std::size_t  encoded_length() const noexcept { return this->encoded_length_old(); }
    EncodeResult encode(absl::Span<uint8_t> o) const noexcept { return this->encode_old(o); }
    DecodeResult decode(BerView i) noexcept { return this->decode_old(i); }
};

template <template <typename> class X, UniversalTag U>
void ids(const std::string& n, bool k, const Content& a, const Content& b)
{
    constexpr Class un = Class::universal, ap = Class::application, cs = Class::context_specific, pr = Class::private_;
    using UI = ExplicitId<U>;
    test<X<UI>>(n, k, a, b);
    test<X<Id<cs, 0>>>(n, k, a, b);
    test<X<Id<cs, 5>>>(n, k, a, b);
    test<X<Id<ap, 1>>>(n, k, a, b);
    test<X<Id<pr, 30>>>(n, k, a, b);
    test<X<Id<cs, 31>>>(n, k, a, b);
    test<X<Id<ap, 128>>>(n, k, a, b);
    test<X<Id<un, 33>>>(n, k, a, b);
    test<X<Id<pr, 16384>>>(n, k, a, b);
    test<X<DoubleId<Id<cs, 0>, UI>>>(n, k, a, b);
    test<X<DoubleId<Id<ap, 31>, Id<cs, 5>>>>(n, k, a, b);
    test<X<DoubleId<Id<pr, 128>, Id<ap, 128>>>>(n, k, a, b);
    test<X<DoubleId<Id<cs, 1>, Id<cs, 1>>>>(n, k, a, b);
    test<X<DoubleId<Id<un, 1>, Id<pr, 0>>>>(n, k, a, b);
}
template <typename I>
using Enum = Enumerated<Colour, I>;
template <typename I>
using Octets = OctetString<I>;
template <typename I>
using Utf8 = UTF8String<I>;
template <typename I>
using Bits = BitString<I>;
template <typename I>
using IntList = SequenceOf<Integer<>, I>;
template <typename I>
using IntVec = SequenceOf<Integer<>, I, StorageMode::dynamic>;
template <typename I>
using TaggedChoice = Obj_<Choice<Choices<Boolean<>, Integer<Id<Class::context_specific, 1>>>, I>>;
static Bytes str(const char* s) { return Bytes(s, s + strlen(s)); }

int main(int argc, char** argv)
{
    run.init(argc, argv);
#if GROUP == 0
    ids<Boolean, UniversalTag::boolean>("BOOLEAN", false, {{0xff}}, {{0x00}});
    ids<Integer, UniversalTag::integer>("INTEGER", false, {{0x81}}, {{0x12, 0x34}});
    ids<Enum, UniversalTag::enumerated>("ENUMERATED", false, {{0x05}}, {{0x00}});
    ids<Null, UniversalTag::null>("NULL", false, {{}}, {{}});
#elif GROUP == 1
    ids<Octets, UniversalTag::octet_string>("OCTET STRING", false, {str("ab")}, {Bytes(130, 'x')});
    ids<Utf8, UniversalTag::utf8_string>("UTF8String", false, {{}}, {str("z")});
    ids<Bits, UniversalTag::bit_string>("BIT STRING", false, {str("ab")}, {{}});
#elif GROUP == 2
    ids<ObjectIdentifier, UniversalTag::object_identifier>("OBJECT IDENTIFIER", false, {{0x2a, 0x03}},
                                                           {{0x55, 0x04}});
    ids<Real, UniversalTag::real>("REAL", false, {{0x80, 0x00, 0x03}}, {{}});
    ids<GeneralizedTime, UniversalTag::generalized_time>("GeneralizedTime", false, {str("20240229235959Z")},
                                                         {str("19700101000000Z")});
#else
    ids<IntList, UniversalTag::sequence>("SEQUENCE OF INTEGER", true, {ref::tlv(0, false, 2, {7})}, {{}});
    ids<IntVec, UniversalTag::sequence>("SEQUENCE OF INTEGER (dynamic)", true, {ref::tlv(0, false, 2, {7})}, {{}});
    ids<TaggedChoice, UniversalTag::sequence>("CHOICE", true, {ref::tlv(2, false, 1, {7})}, {ref::tlv(0, false, 1, {0})});
#endif
    return run.finish();
}
