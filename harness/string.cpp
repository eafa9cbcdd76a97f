// C07: string types under all operation histories, against std::string.
#include "hist.hpp"
#include "subject.hpp"

using namespace fast_ber;
using vf::Bytes;
using vf::hex;

static vf::Exact exact;

template <Class C, Tag T>
Bytes wrap(const Bytes& c, Id<C, T>, bool k = false)
{
    return ref::tlv(static_cast<int>(C), k, static_cast<uint64_t>(T), c);
}
template <typename O, typename I>
Bytes wrap(const Bytes& c, DoubleId<O, I>, bool k = false)
{
    return wrap(wrap(c, I{}, k), O{}, true);
}

static std::string text(size_t n, char seed)
{
    std::string s(n, 0);
    for (size_t i = 0; i < n; i++)
        s[i] = static_cast<char>(seed + static_cast<char>(i % 23) + (i == n / 2 ? '\x80' : 0));
    return s;
}
// lengths around: empty, the inline capacity (100 octets with header), the one, two and three octet length forms
static std::vector<size_t> lengths()
{
    if (run.thorough)
        return {0, 1, 2, 94, 95, 96, 97, 98, 99, 100, 101, 122, 123, 124, 125, 126, 127, 128, 129, 130, 200, 250, 251, 252, 253, 254, 255, 256, 257, 65535, 65536};
    return {0, 1, 3, 95, 98, 100, 123, 127, 128, 255, 256};
}
static std::vector<size_t> g_hist_lengths = {0, 3, 98, 127, 128, 256};
static const std::vector<size_t>& hist_lengths() { return g_hist_lengths; }

static Bytes bytes(const std::string& s) { return Bytes(s.begin(), s.end()); }
static std::string show(const std::string& s) { return "\"" + std::to_string(s.size()) + (s.empty() ? "" : ":" + hex(bytes(s.substr(0, 2)))) + "\""; }

template <typename TA, typename TC>
struct Strings
{
    TA          a, b;
    TC          c;
    std::string ma, mb, mc;

    enum Op
    {
        assign_sv,   // per length
        assign_span, // per length
        resize_a,
        resize_b,
        decode_a,
        set_b,
        set_c,
        groups
    };
    static const char* const* singles()
    {
        static const char* s[] = {"a = b",          "b = a",           "a = c",           "c = a",         "a = move(b)",   "b = move(a)",
                                  "a = a",          "a = move(a)",     "a = TA(b)",       "a = TA(c)",     "a = TA(move(b))", "swap(a,b)",
                                  "a = all of a",   "a = tail of a",   "a = head of a",   "a = middle of a", "a.assign(b.span())",
                                  "a[0] = x",       "a[last] = y",     "a.decode(encode(b))", "a.decode(own encoding)", "a.decode(bad tag)",
                                  "a.decode(truncated)", "a.decode(constructed)", "a.decode(nothing)", "a = const char*", "a = string(b)",
                                  "c = tail of a", "a.assign(c)", "fill a through end()", "a = TA()", nullptr};
        return s;
    }
    static size_t nsingles()
    {
        static size_t n = [] {
            size_t k = 0;
            while (singles()[k])
                k++;
            return k;
        }();
        return n;
    }
    static size_t      nl() { return hist_lengths().size(); }
    static size_t      nops() { return groups * nl() + nsingles(); }
    static std::string name(size_t o)
    {
        static const char* g[] = {"a = string_view", "a.assign(span)", "a.resize", "b.resize", "a.decode", "b = string", "c = string_view"};
        if (o < groups * nl())
            return std::string(g[o / nl()]) + "(" + std::to_string(hist_lengths()[o % nl()]) + ")";
        return singles()[o - groups * nl()];
    }
    template <typename T>
    static absl::Span<const uint8_t> sp(const T& s)
    {
        return absl::Span<const uint8_t>(reinterpret_cast<const uint8_t*>(s.data()), s.size());
    }
    template <typename T>
    static Bytes enc(const T& t, bool& ok)
    {
        const size_t               n = t.encoded_length();
        std::unique_ptr<uint8_t[]> x(new uint8_t[n]);
        auto                       r = t.encode(absl::Span<uint8_t>(x.get(), n));
        ok                           = r.success && r.length == n;
        return Bytes(x.get(), x.get() + n);
    }
    void dec(const Bytes& w, bool expect, const std::string& v)
    {
        const bool r = decode(exact.put(w), a).success;
        run.compared++;
        if (r != expect)
            run.fail(expect ? "decode-refused" : "decode-accepted", "[" + hex(w) + "]");
        if (expect)
            ma = v;
    }
    bool apply(size_t o)
    {
        using IA = typename TA::AsnId;
        bool ok;
        if (o < groups * nl())
        {
            const size_t n = hist_lengths()[o % nl()];
            switch (o / nl())
            {
            case assign_sv: ma = text(n, 'a'); a = absl::string_view(ma); break;
            case assign_span: ma = text(n, 'A'); a.assign(exact.put(bytes(ma))); break;
            case resize_a: a.resize(n); ma.resize(n); break;
            case resize_b: b.resize(n); mb.resize(n); break;
            case decode_a:
            {
                std::string v = text(n, 'k');
                dec(wrap(bytes(v), IA{}), true, v);
                break;
            }
            case set_b: mb = text(n, '0'); b = mb; break;
            case set_c: mc = text(n, 'p'); c = absl::string_view(mc); break;
            }
            return true;
        }
        switch (o - groups * nl())
        {
        case 0: a = b; ma = mb; break;
        case 1: b = a; mb = ma; break;
        case 2: a = c; ma = mc; break;
        case 3: c = a; mc = ma; break;
        case 4: a = std::move(b); ma = mb; mb = b.value(); break; // a moved-from string holds some value
        case 5: b = std::move(a); mb = ma; ma = a.value(); break;
        case 6:
        {
            TA& r = a;
            a     = r;
            break;
        }
        case 7:
        {
            TA& r = a;
            a     = std::move(r);
            ma    = a.value();
            break;
        }
        case 8: a = TA(b); ma = mb; break;
        case 9: a = TA(c); ma = mc; break;
        case 10:
        {
            TA t(std::move(b));
            a  = t;
            ma = mb;
            mb = b.value();
            break;
        }
        case 11: std::swap(a, b); std::swap(ma, mb); break;
        case 12: a.assign(a.span()); break;
        case 13:
        {
            size_t k = ma.size() / 3;
            a.assign(absl::Span<const uint8_t>(a.data() + k, a.size() - k));
            ma = ma.substr(k);
            break;
        }
        case 14:
        {
            size_t k = ma.size() - ma.size() / 3;
            a.assign(absl::string_view(a.c_str(), k));
            ma = ma.substr(0, k);
            break;
        }
        case 15:
        {
            size_t k = ma.size() / 4, n = ma.size() / 2;
            a  = absl::Span<const uint8_t>(a.data() + k, n);
            ma = ma.substr(k, n);
            break;
        }
        case 16: a.assign(b.span()); ma = mb; break;
        case 17:
            if (ma.empty())
                return false;
            a[0] = 'x';
            ma[0] = 'x';
            break;
        case 18:
            if (ma.empty())
                return false;
            a[ma.size() - 1] = 0xfe;
            ma.back()        = static_cast<char>(0xfe);
            break;
        case 19:
        {
            Bytes e = enc(b, ok);
            dec(e, true, mb);
            break;
        }
        case 20:
        {
            // decoding from the object's own octets
            Bytes e = enc(a, ok);
            dec(e, true, ma);
            break;
        }
        case 21: dec(wrap(bytes("zz"), Id<Class::private_, 3>{}), false, ""); break;
        case 22:
        {
            Bytes w = wrap(bytes("truncated"), IA{});
            w.pop_back();
            dec(w, false, "");
            break;
        }
        case 23: dec(wrap(bytes("\x04\x01z"), IA{}, true), false, ""); break;
        case 24: dec({}, false, ""); break;
        case 25: a = "plain"; ma = "plain"; break;
        case 26: a = std::string(b.value()); ma = mb; break;
        case 27:
        {
            size_t k = ma.size() / 3;
            c.assign(absl::Span<const uint8_t>(a.data() + k, a.size() - k));
            mc = ma.substr(k);
            break;
        }
        case 28: a.assign(c); ma = mc; break;
        case 29:
            for (uint8_t* p = a.begin(); p != a.end(); ++p)
                *p = 'e';
            ma.assign(ma.size(), 'e');
            break;
        case 30: a = TA(); ma.clear(); break;
        }
        return true;
    }
    template <typename T>
    static void check1(const T& t, const std::string& m, const char* which, const std::function<std::string()>& trace)
    {
        run.compared += 6;
        auto bad = [&](const char* key, const std::string& what) { run.fail(key, trace() + " : " + which + " " + what + ", expected " + show(m)); };
        const std::string v = t.value();
        if (v != m)
            bad("value", "reads " + show(v));
        if (t.size() != m.size() || t.length() != m.size() || t.empty() != m.empty() || t.span().size() != m.size() ||
            static_cast<size_t>(t.end() - t.begin()) != m.size())
            bad("size", "reports inconsistent sizes");
        if (std::string(reinterpret_cast<const char*>(t.span().data()), t.span().size()) != m || std::string(absl::string_view(t)) != m ||
            !std::equal(t.begin(), t.end(), reinterpret_cast<const uint8_t*>(m.data()), [](uint8_t x, uint8_t y) { return x == y; }))
            bad("access", "reads differently through another accessor");
        if (!(t == m) || t != m || !(t == absl::string_view(m)) || t == m + "x" || (!m.empty() && t == m.substr(1)) || t == "\x01nothing like it")
            bad("compare", "does not compare as");
        bool        ok;
        const Bytes e = enc(t, ok), want = wrap(bytes(m), typename T::AsnId{});
        if (!ok || e != want)
            bad("encoding", "encodes to [" + hex(e) + "] instead of [" + hex(want) + "]");
        T copy(t);
        if (!(copy == t))
            bad("copy", "differs from its copy");
    }
    void check(const std::function<std::string()>& trace) const
    {
        check1(a, ma, "a", trace);
        check1(b, mb, "b", trace);
        check1(c, mc, "c", trace);
        run.compared += 2;
        if ((a == b) != (ma == mb) || (a != b) == (ma == mb))
            run.fail("compare", trace() + " : a and b compare wrongly");
    }
    std::string key() const { return ma + "|" + mb + "|" + mc; }
};

// every transition between two lengths by every operation that sets a length
template <typename TA>
void pairs(const std::string& what)
{
    using IA = typename TA::AsnId;
    for (size_t n : lengths())
        for (size_t m : lengths())
            for (int how1 = 0; how1 < 3; how1++)
                for (int how2 = 0; how2 < 7; how2++)
                {
                    if (!run.next())
                        continue;
                    const std::string v = text(n, 'a'), w = text(m, 'Q');
                    const std::string name = what + " " + std::to_string(n) + " -> " + std::to_string(m) + " by " +
                                             std::to_string(how1) + "," + std::to_string(how2);
                    run.note(name);
                    TA a;
                    if (how1 == 0)
                        a = absl::string_view(v);
                    else if (how1 == 1)
                    {
                        if (!decode(exact.put(wrap(bytes(v), IA{})), a).success)
                            run.fail("decode-refused", name);
                    }
                    else
                    {
                        a.resize(n);
                        std::copy(v.begin(), v.end(), a.begin());
                    }
                    std::string want = w;
                    switch (how2)
                    {
                    case 0: a = absl::string_view(w); break;
                    case 1:
                        if (!decode(exact.put(wrap(bytes(w), IA{})), a).success)
                            run.fail("decode-refused", name);
                        break;
                    case 2: a.resize(m); want = v; want.resize(m); break;
                    case 3: a = TA(w); break;
                    case 4:
                    {
                        TA x(w);
                        a = x;
                        break;
                    }
                    case 5:
                    {
                        OctetString<Id<Class::private_, 1000>> x(w);
                        a = x;
                        break;
                    }
                    case 6:
                        if (m > n)
                            continue;
                        a    = absl::string_view(a.c_str() + (n - m), m);
                        want = v.substr(n - m);
                        break;
                    }
                    run.transitions += 2;
                    Strings<TA, TA>::check1(a, want, "a", [&] { return name; });
                    run.state(what + std::to_string(how1) + want);
                }
}

using S1 = Id<Class::context_specific, 5>;
using L1 = Id<Class::private_, 200>;
using D1 = DoubleId<Id<Class::application, 40>, ExplicitId<UniversalTag::octet_string>>;
using D2 = DoubleId<Id<Class::context_specific, 16384>, Id<Class::private_, 128>>;

int main(int argc, char** argv)
{
    run.init(argc, argv);
#if GROUP == 0
    pairs<OctetString<>>("OCTET STRING");
    pairs<UTF8String<S1>>("[5] UTF8String");
    pairs<PrintableString<L1>>("[PRIVATE 200] PrintableString");
    pairs<OctetString<D1>>("[APPLICATION 40] EXPLICIT OCTET STRING");
    pairs<IA5String<D2>>("[16384] EXPLICIT [PRIVATE 128] IA5String");
    pairs<BitString<>>("BIT STRING");
    pairs<BMPString<>>("BMPString");
#elif GROUP == 1
    histories<Strings<OctetString<>, UTF8String<D1>>>("OCTET STRING", 3);
    g_hist_lengths = {0, 98, 128};
    if (run.thorough)
        histories<Strings<OctetString<>, UTF8String<D1>>>("OCTET STRING", 4);
#else
    histories<Strings<UTF8String<D2>, OctetString<L1>>>("[16384] EXPLICIT [PRIVATE 128] UTF8String", 3);
    g_hist_lengths = {0, 98, 128};
    if (run.thorough)
        histories<Strings<UTF8String<D2>, OctetString<L1>>>("[16384] EXPLICIT [PRIVATE 128] UTF8String", 4);
#endif
    return run.finish();
}
