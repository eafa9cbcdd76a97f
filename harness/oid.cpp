// C08: object identifiers: all arc lists over boundary arcs, all short contents, all short histories.
#include "hist.hpp"
#include "subject.hpp"

using namespace fast_ber;
using vf::Bytes;
using vf::hex;
using Arcs = std::vector<int64_t>;

static vf::Exact exact;

template <Class C, Tag T>
Bytes wrap(const Bytes& c, Id<C, T>, bool k = false)
{
    return ref::tlv(static_cast<int>(C), k, static_cast<uint64_t>(T), c);
}
template <typename O, typename I>
Bytes wrap(const Bytes& c, DoubleId<O, I>, bool k = false)
{
    return wrap(wrap(c, I{}, k), O{}, true);
}
static std::string show(const Arcs& a)
{
    std::string s = "{";
    for (int64_t x : a)
        s += " " + std::to_string(x);
    return s + " }";
}
// X.660: root 0..2, second arc below 40 under 0 and 1
static bool legal(const Arcs& a)
{
    if (a.size() < 2 || a[0] < 0 || a[0] > 2 || (a[0] < 2 && a[1] > 39))
        return false;
    for (int64_t x : a)
        if (x < 0)
            return false;
    return true;
}
// does the first subidentifier fit the 63 bits the library works with
static bool representable(const Arcs& a) { return a[0] < 2 || a[1] <= INT64_MAX - 80; }
// X.690 8.19
static Bytes content(const Arcs& a)
{
    Bytes b;
    for (size_t i = 1; i < a.size(); i++)
    {
        unsigned __int128 v = static_cast<unsigned __int128>(a[i]);
        if (i == 1)
            v += static_cast<unsigned __int128>(40 * a[0]);
        Bytes g;
        do
        {
            g.insert(g.begin(), static_cast<uint8_t>(static_cast<uint8_t>(v & 0x7f) | (g.empty() ? 0 : 0x80)));
            v >>= 7;
        } while (v);
        ref::cat(b, g);
    }
    return b;
}
// well formed contents whose arcs fit: true and the arcs
static bool arcs_of(const Bytes& c, Arcs& out, bool& fits)
{
    out.clear();
    fits = true;
    if (c.empty() || (c.back() & 0x80))
        return false;
    unsigned __int128 v = 0;
    for (uint8_t o : c)
    {
        if (v >> 100)
            fits = false;
        else
            v = (v << 7) | (o & 0x7f);
        if (o & 0x80)
            continue;
        if (v > INT64_MAX)
            fits = false;
        if (out.empty())
        {
            int64_t root = v < 40 ? 0 : v < 80 ? 1 : 2;
            out.push_back(root);
            v -= static_cast<unsigned __int128>(40 * root);
        }
        out.push_back(static_cast<int64_t>(v));
        v = 0;
    }
    return true;
}
static ObjectIdentifierComponents comps(const Arcs& a) { return ObjectIdentifierComponents(a.begin(), a.end()); }

template <typename T>
bool enc(const T& t, Bytes& out)
{
    const size_t               n = t.encoded_length();
    std::unique_ptr<uint8_t[]> b(new uint8_t[n]);
    auto                       r = t.encode(absl::Span<uint8_t>(b.get(), n));
    out.assign(b.get(), b.get() + n);
    return r.success && r.length == n;
}

template <typename T>
void reads(const T& t, const Arcs& a, const std::string& what)
{
    const auto v = t.value();
    run.compared += 3 + a.size();
    if (!std::equal(v.begin(), v.end(), a.begin(), a.end()))
        run.fail("arcs", what + ": reads " + show(Arcs(v.begin(), v.end())) + ", expected " + show(a));
    if (t.number_of_components() != a.size())
        run.fail("arcs", what + ": has " + std::to_string(t.number_of_components()) + " components, expected " + std::to_string(a.size()));
    for (size_t i = 0; i < a.size() + 3; i++)
    {
        const int64_t want = i < a.size() ? a[i] : -1;
        if (t.component_number(i) != want)
            run.fail("single-arc", what + ": component " + std::to_string(i) + " reads " + std::to_string(t.component_number(i)) +
                                       ", expected " + std::to_string(want));
    }
    if (!(t == comps(a)) || t != comps(a))
        run.fail("compare", what + ": is not equal to its arcs");
    Arcs other = a;
    other.push_back(1);
    if (t == comps(other))
        run.fail("compare", what + ": is equal to other arcs");
}

template <typename I>
void lists(const std::string& name)
{
    using T  = ObjectIdentifier<I>;
    auto one = [&](const Arcs& a) {
        if (!run.next())
            return;
        const std::string what = name + " " + show(a);
        run.note(what);
        const auto c  = comps(a);
        const bool ok = legal(a) && representable(a);
        T          t, u(c), old{1, 2, 3};
        const bool r1 = t.assign(c), r2 = old.assign(c);
        T          v;
        v = c;
        run.transitions += 5;
        run.compared += 2;
        if (r1 != ok || r2 != ok)
            run.fail(ok ? "legal-refused" : "illegal-accepted", what);
        if (ok)
        {
            const Bytes want = wrap(content(a), I{});
            for (const T* x : {&t, &u, &v, &old})
            {
                Bytes e;
                if (!enc(*x, e) || e != want)
                    run.fail("encoding", what + ": encodes to [" + hex(e) + "], expected [" + hex(want) + "]");
                reads(*x, a, what);
            }
            T d;
            if (!decode(exact.put(want), d).success)
                run.fail("roundtrip", what + ": refused");
            else
                reads(d, a, what + " decoded");
            if (!(d == t) || d != t)
                run.fail("compare", what + ": differs from its decoded self");
            // encoding the arcs directly, into every size of buffer
            const Bytes raw = content(a);
            for (size_t n = raw.size() > 6 ? raw.size() - 6 : 0; n <= raw.size() + 1; n++)
            {
                auto       buf = exact.fill(n, 0xEE);
                const auto r   = encode_object_id(buf, c);
                run.compared++;
                if (r.success != (n >= raw.size()) || (r.success && (r.length != raw.size() || !std::equal(raw.begin(), raw.end(), buf.begin()))))
                    run.fail("raw-encoding", what + ": into " + std::to_string(n) + " octets gives success " + std::to_string(r.success));
            }
            if (encoded_object_id_length(c) != raw.size())
                run.fail("length", what + ": predicted content length is wrong");
            run.state(vf::hash_bytes(want));
            if (run.idx % 3001 == 7)
                run.sample(what + " -> [" + hex(want) + "]");
        }
        else
        {
            reads(old, {1, 2, 3}, what + ": refused, the earlier value");
            Bytes e, f;
            enc(t, e);
            enc(T(), f);
            if (e != f)
                run.fail("illegal-accepted", what + ": changed a new object to [" + hex(e) + "]");
        }
    };
    const int64_t M = INT64_MAX;
    const Arcs roots = {-1, 0, 1, 2, 3, 40};
    const Arcs second = {-1, 0, 1, 38, 39, 40, 47, 48, 79, 80, 87, 88, 127, 128, 175, 176, 999, 16303, 16304, 16383, 16384, 2097151, 2097152,
                         int64_t(1) << 31, int64_t(1) << 32, int64_t(1) << 56, M - 81, M - 80, M - 79, M};
    Arcs       rest   = {0, 1, 127, 128, 16383, 16384, 2097151, 2097152, int64_t(1) << 28, (int64_t(1) << 31) - 1, int64_t(1) << 32, int64_t(1) << 35,
                         int64_t(1) << 42, int64_t(1) << 49, int64_t(1) << 56, M, -1, INT64_MIN};
    one({});
    for (int64_t r : roots)
    {
        one({r});
        for (int64_t s : second)
        {
            one({r, s});
            for (int64_t x : rest)
            {
                one({r, s, x});
                for (int64_t y : run.thorough ? rest : Arcs{0, 127, 128, M, -1})
                    one({r, s, x, y});
            }
        }
    }
    for (int64_t x = 0; x < (run.thorough ? 20000 : 400); x++)
    {
        one({2, x});
        one({1, 2, x});
        one({2, 5, x, 3});
    }
    for (size_t n = 2; n <= 140; n++)
        for (int64_t x : {int64_t(0), int64_t(5), int64_t(127), int64_t(128), M})
        {
            Arcs a(n, x);
            a[0] = 2;
            a[1] = 5;
            one(a);
        }
}

template <typename I>
void contents(const std::string& name)
{
    using T  = ObjectIdentifier<I>;
    auto one = [&](const Bytes& c) {
        if (!run.next())
            return;
        const std::string what = name + " content [" + hex(c) + "]";
        run.note(what);
        Arcs       want;
        bool       fits;
        const bool good = arcs_of(c, want, fits) && fits;
        if (!good)
            want.clear();
        T          t;
        const bool r = decode(exact.put(wrap(c, I{})), t).success;
        run.transitions += 2;
        run.compared++;
        if (good && !r)
            run.fail("content-refused", what);
        if (r)
            reads(t, want, what);
        ObjectIdentifierComponents raw;
        const bool                 rr = decode_object_id(exact.put(c), raw).success;
        if (rr != good || !std::equal(raw.begin(), raw.end(), want.begin(), want.end()))
            run.fail("raw-content", what + ": success " + std::to_string(rr) + ", arcs " + show(Arcs(raw.begin(), raw.end())));
        if (get_number_of_components(exact.put(c)) != want.size())
            run.fail("raw-content", what + ": number of components");
        for (size_t i = 0; i < want.size() + 2; i++)
            if (get_component_number(exact.put(c), i) != (i < want.size() ? want[i] : -1))
                run.fail("raw-content", what + ": component " + std::to_string(i));
        run.state(vf::hash_bytes(c));
    };
    vf::for_strings(vf::all_bytes(), 0, 2, one);
    vf::for_strings({0x00, 0x01, 0x27, 0x28, 0x4f, 0x50, 0x7f, 0x80, 0x81, 0xff}, 3, run.thorough ? 6 : 5, one);
    for (size_t n = 1; n <= 22; n++)
        for (uint8_t v : {0x80, 0x81, 0xc0, 0xff})
            for (uint8_t last : {0x00, 0x01, 0x40, 0x7f, 0x80})
                for (const Bytes& pre : {Bytes{}, Bytes{0x2a}, Bytes{0x88, 0x37, 0x01}})
                    for (const Bytes& post : {Bytes{}, Bytes{0x05}})
                        for (int first = 0; first < 3; first++)
                        {
                            Bytes b = pre;
                            Bytes m(n, v);
                            m[0] = first == 0 ? v : first == 1 ? 0x81 : 0x83;
                            ref::cat(b, m);
                            b.push_back(last);
                            ref::cat(b, post);
                            one(b);
                        }
}

template <typename I>
struct Hist
{
    using T = ObjectIdentifier<I>;
    T    a, b;
    Arcs ma, mb;

    static const std::vector<Arcs>& good()
    {
        static const std::vector<Arcs> g = {{1, 2, 840, 113549}, {2, 999, 3}, {0, 39}, [] {
                                               Arcs x(60, 16384);
                                               x[0] = 2;
                                               x[1] = 100;
                                               return x;
                                           }()};
        return g;
    }
    static const std::vector<Arcs>& bad()
    {
        static const std::vector<Arcs> g = {{1}, {3, 1}, {1, 40}, {1, 2, -3}, {}};
        return g;
    }
    static size_t      nops() { return 3 * good().size() + bad().size() + 8; }
    static std::string name(size_t o)
    {
        const size_t n = good().size();
        if (o < 3 * n)
            return std::string(o / n == 0 ? "a.assign" : o / n == 1 ? "b = " : "a.decode") + show(good()[o % n]);
        o -= 3 * n;
        if (o < bad().size())
            return "a.assign" + show(bad()[o]) + " refused";
        static const char* s[] = {"a = b", "b = a", "a = a", "a = move(b)", "a = T(b)", "a.decode(encode(b))", "a.decode(wrong tag)", "swap"};
        return s[o - bad().size()];
    }
    bool apply(size_t o)
    {
        const size_t n = good().size();
        if (o < 3 * n)
        {
            const Arcs& g = good()[o % n];
            if (o / n == 0)
            {
                if (!a.assign(comps(g)))
                    run.fail("legal-refused", show(g));
                ma = g;
            }
            else if (o / n == 1)
                b = comps(g), mb = g;
            else
            {
                if (!decode(exact.put(wrap(content(g), I{})), a).success)
                    run.fail("roundtrip", show(g) + ": refused");
                ma = g;
            }
            return true;
        }
        o -= 3 * n;
        if (o < bad().size())
        {
            if (a.assign(comps(bad()[o])))
                run.fail("illegal-accepted", show(bad()[o]));
            return true;
        }
        switch (o - bad().size())
        {
        case 0: a = b; ma = mb; break;
        case 1: b = a; mb = ma; break;
        case 2:
        {
            T& r = a;
            a    = r;
            break;
        }
        case 3:
        {
            a      = std::move(b);
            ma     = mb;
            auto v = b.value();
            mb.assign(v.begin(), v.end());
            break;
        }
        case 4: a = T(b); ma = mb; break;
        case 5:
        {
            if (mb.empty())
                return false;
            Bytes e;
            enc(b, e);
            if (!decode(exact.put(e), a).success)
                run.fail("roundtrip", "own encoding refused");
            ma = mb;
            break;
        }
        case 6:
            if (decode(exact.put(wrap({0x2a, 0x03}, Id<Class::private_, 3>{})), a).success)
                run.fail("content-accepted", "wrong tag");
            break;
        case 7: std::swap(a, b); std::swap(ma, mb); break;
        }
        return true;
    }
    void check(const std::function<std::string()>& trace) const
    {
        const std::string t = trace();
        reads(a, ma, t + " : a");
        reads(b, mb, t + " : b");
        for (auto p : {std::make_pair(&a, &ma), std::make_pair(&b, &mb)})
            if (!p.second->empty())
            {
                Bytes e;
                run.compared++;
                if (!enc(*p.first, e) || e != wrap(content(*p.second), I{}))
                    run.fail("encoding", t + " : encodes to [" + hex(e) + "]");
            }
        if ((a == b) != (ma == mb) || (a != b) == (ma == mb))
            run.fail("compare", t + " : a and b compare wrongly");
    }
    std::string key() const { return show(ma) + show(mb); }
};

using L1 = Id<Class::private_, 200>;
using D2 = DoubleId<Id<Class::context_specific, 16384>, Id<Class::private_, 128>>;

int main(int argc, char** argv)
{
    run.init(argc, argv);
    using U = ExplicitId<UniversalTag::object_identifier>;
    lists<U>("OBJECT IDENTIFIER");
    lists<D2>("[16384] EXPLICIT [PRIVATE 128] OBJECT IDENTIFIER");
    contents<U>("OBJECT IDENTIFIER");
    contents<L1>("[PRIVATE 200] OBJECT IDENTIFIER");
    histories<Hist<U>>("OBJECT IDENTIFIER", run.thorough ? 4 : 3);
    histories<Hist<D2>>("[16384] EXPLICIT [PRIVATE 128] OBJECT IDENTIFIER", run.thorough ? 4 : 3);
    return run.finish();
}
