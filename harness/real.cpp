// C09: reals: every binary exponent with boundary mantissas, all short contents, all forms, all short histories.
#include "valhist.hpp"
#include <cmath>

static uint64_t bits(double d)
{
    uint64_t u;
    memcpy(&u, &d, 8);
    return u;
}
static double from_bits(uint64_t u)
{
    double d;
    memcpy(&d, &u, 8);
    return d;
}
static std::string show(double d)
{
    char b[64];
    snprintf(b, sizeof b, "%a", d);
    return b;
}
static bool same(double a, double b) { return (std::isnan(a) && std::isnan(b)) || bits(a) == bits(b); }

enum Verdict
{
    value,   // exactly this number
    near,    // a number that no double holds: a neighbour of it
    refuse,  // not a real
    any      // legal, but outside what a double can hold: unspecified
};
struct Meaning
{
    Verdict v;
    double  d;
};

// X.690 8.5, written from the standard
static Meaning meaning(const Bytes& c)
{
    if (c.empty())
        return {value, 0.0};
    const uint8_t f = c[0];
    if (f & 0x80)
    {
        const int base = (f >> 4) & 3, scale = (f >> 2) & 3;
        if (base == 3)
            return {refuse, 0};
        size_t       at = 1, n = static_cast<size_t>(f & 3) + 1;
        if (n == 4)
        {
            if (c.size() < 2)
                return {refuse, 0};
            n  = c[1];
            at = 2;
            if (n == 0)
                return {refuse, 0};
            if (c.size() >= at + n && n > 1 && ((c[at] == 0xff && (c[at + 1] & 0x80)) || (c[at] == 0 && !(c[at + 1] & 0x80))))
                return {refuse, 0};
        }
        if (c.size() <= at + n)
            return {refuse, 0};
        __int128 e = (c[at] & 0x80) ? -1 : 0;
        bool     huge = false;
        for (size_t i = 0; i < n; i++)
        {
            e = e * 256 + c[at + i];
            if (e > (__int128(1) << 60) || e < -(__int128(1) << 60))
                huge = true, e = e < 0 ? -(__int128(1) << 60) : (__int128(1) << 60);
        }
        size_t m = at + n;
        while (m < c.size() && c[m] == 0)
            m++;
        if (m == c.size())
            return {refuse, 0}; // zero has its own form
        if (huge)
            return {any, 0};
        // trailing zero octets only scale
        size_t end = c.size();
        while (c[end - 1] == 0)
            end--;
        e = e * (base == 0 ? 1 : base == 1 ? 3 : 4) + scale + 8 * static_cast<__int128>(c.size() - end);
        if (end - m > 15)
            return {any, 0};
        unsigned __int128 N = 0;
        for (size_t i = m; i < end; i++)
            N = (N << 8) | c[i];
        while (!(N & 1))
            N >>= 1, e++;
        int width = 0;
        for (unsigned __int128 t = N; t; t >>= 1)
            width++;
        if (e + width > 1024 || e + width < -1080)
            return {any, 0};
        // the number is N * 2^e, N odd
        const bool neg = (f & 0x40) != 0;
        if (width <= 53 && e >= -1074)
        {
            double d = std::ldexp(static_cast<double>(static_cast<uint64_t>(N)), static_cast<int>(e));
            return {value, neg ? -d : d};
        }
        // drop the octets a double has no room for; the result is off by at most one unit in the last place
        int drop = width - 53;
        if (e + drop < -1074)
            drop = static_cast<int>(-1074 - e);
        uint64_t q = drop >= 127 ? 0 : static_cast<uint64_t>(N >> drop);
        double   d = std::ldexp(static_cast<double>(q), static_cast<int>(e) + drop);
        return {near, neg ? -d : d};
    }
    if (f & 0x40)
    {
        if (c.size() != 1)
            return {refuse, 0};
        switch (f)
        {
        case 0x40: return {value, HUGE_VAL};
        case 0x41: return {value, -HUGE_VAL};
        case 0x42: return {value, NAN};
        case 0x43: return {value, -0.0};
        }
        return {refuse, 0};
    }
    // decimal: NR1, NR2, NR3 of ISO 6093
    if (f < 1 || f > 3)
        return {refuse, 0};
    const std::string s(c.begin() + 1, c.end());
    size_t            i = 0;
    while (i < s.size() && s[i] == ' ')
        i++;
    const size_t start = i;
    if (i < s.size() && (s[i] == '+' || s[i] == '-'))
        i++;
    size_t digits = 0, marks = 0;
    while (i < s.size() && ((s[i] >= '0' && s[i] <= '9') || s[i] == '.' || s[i] == ','))
    {
        (s[i] == '.' || s[i] == ',') ? marks++ : digits++;
        i++;
    }
    if (digits == 0 || marks != (f == 1 ? 0u : 1u))
        return {refuse, 0};
    if (f == 3)
    {
        if (i >= s.size() || (s[i] != 'E' && s[i] != 'e'))
            return {refuse, 0};
        i++;
        if (i < s.size() && (s[i] == '+' || s[i] == '-'))
            i++;
        size_t ed = 0;
        while (i < s.size() && s[i] >= '0' && s[i] <= '9')
            i++, ed++;
        if (ed == 0)
            return {refuse, 0};
    }
    if (i != s.size())
        return {refuse, 0};
    std::string t = s.substr(start);
    std::replace(t.begin(), t.end(), ',', '.');
    double d = strtod(t.c_str(), nullptr);
    if (std::isinf(d))
        return {any, 0};
    return {value, d};
}
static bool agrees(const Meaning& m, double d)
{
    switch (m.v)
    {
    case value: return same(m.d, d) || (m.d == 0 && d == 0 && std::signbit(m.d) == std::signbit(d));
    case near:
    {
        if (std::signbit(d) != std::signbit(m.d) && d != 0)
            return false;
        const int64_t x = static_cast<int64_t>(bits(std::fabs(d))), y = static_cast<int64_t>(bits(std::fabs(m.d)));
        return x - y <= 1 && y - x <= 1;
    }
    case any: return true;
    case refuse: return false;
    }
    return false;
}

template <typename I>
void doubles(const std::string& name)
{
    auto one = [&](double d) {
        if (!run.next())
            return;
        const std::string what = name + " " + show(d);
        run.note(what);
        Real<I> a(d), b, c(1.5);
        b = d;
        c.assign(d);
        Real<I>                       e(a);
        Real<Id<Class::private_, 77>> f(a);
        Real<I>                       g(f);
        run.transitions += 6;
        Bytes first;
        enc(a, first);
        for (const Real<I>* x : {&a, &b, &c, &e, &g})
        {
            Bytes w;
            run.compared += 4;
            if (!enc(*x, w) || w != first)
                run.fail("encoding", what + ": encoded in two ways, [" + hex(w) + "] and [" + hex(first) + "]");
            if (!same(x->value(), d) || !same(static_cast<double>(*x), d))
                run.fail("value", what + ": reads " + show(x->value()));
        }
        if (!same(f.value(), d))
            run.fail("value", what + ": copied to another identifier reads " + show(f.value()));
        // the content is a valid real denoting d, in a minimal header
        auto content = [](absl::Span<const uint8_t> w, size_t depth) {
            Bytes      cur(w.begin(), w.end());
            for (size_t i = 0; i < depth; i++)
            {
                ref::Elem el = ref::parse(cur);
                cur.assign(cur.begin() + static_cast<long>(el.hdr), cur.begin() + static_cast<long>(el.total()));
            }
            return cur;
        };
        const Bytes c0 = content(first, I::depth());
        if (wrap(c0, I{}) != first)
            run.fail("encoding", what + ": header in [" + hex(first) + "]");
        const Meaning m = meaning(c0);
        if (m.v != value || !same(m.d, d))
            run.fail("encoding", what + ": encodes to [" + hex(first) + "], which denotes " + (m.v == value ? show(m.d) : "no real"));
        Real<I>    r(3.0);
        const bool ok = decode(exact.put(first), r).success;
        if (!ok || !same(r.value(), d))
            run.fail("roundtrip", what + ": encodes to [" + hex(first) + "], which decodes to " + (ok ? show(r.value()) : "nothing"));
        if (!std::isnan(d) && (!(a == r) || a != r))
            run.fail("compare", what + ": not equal to itself");
        run.state(bits(d));
        if (run.idx % 3001 == 5)
            run.sample(what + " -> [" + hex(first) + "]");
    };
    std::vector<uint64_t> mant = {0, 1, 2, 3, (uint64_t(1) << 52) - 1, uint64_t(1) << 51, (uint64_t(1) << 51) + 1, 0x5555555555555, 0xaaaaaaaaaaaaa, 0x0123456789abc, 255, 256, 0xff00000000000};
    if (run.thorough)
        for (int i = 0; i < 52; i++)
            for (int j = 0; j <= i; j++)
                mant.push_back((uint64_t(1) << i) | (uint64_t(1) << j));
    for (uint64_t s = 0; s < 2; s++)
        for (uint64_t e = 0; e < 2048; e++)
            for (uint64_t m : mant)
                if (e != 2047 || m == 0 || m == uint64_t(1) << 51)
                    one(from_bits(s << 63 | e << 52 | m));
    // subnormals and integers bit by bit
    for (int i = 0; i < 52; i++)
        for (int j = 0; j < 52; j++)
            one(from_bits((uint64_t(1) << i) | (uint64_t(1) << j)));
    for (int i = -2000; i <= 2000; i++)
    {
        one(i);
        one(i / 16.0);
        one(i * 1e10);
        one(i / 3.0);
    }
}

template <typename I>
void contents(const std::string& name)
{
    std::set<uint64_t> seen;
    auto               one = [&](const Bytes& c) {
        if (!seen.insert(vf::hash_bytes(c)).second)
            return;
        if (!run.next())
            return;
        const std::string what = name + " content [" + hex(c) + "]";
        run.note(what);
        const Meaning m = meaning(c);
        Real<I>       t, u(42.5);
        const Bytes   w  = wrap(c, I{});
        const bool    r1 = decode(exact.put(w), t).success, r2 = decode(exact.put(w), u).success;
        double        raw = 7;
        const bool    r3  = decode_real(exact.put(c), raw);
        run.transitions += 3;
        run.compared += 5;
        const bool too_long = c.size() > 100; // the type keeps at most 100 octets
        if (m.v == refuse)
        {
            if (r1 || r2 || r3)
                run.fail("malformed-accepted", what + " reads " + show(r1 ? t.value() : raw));
        }
        else if (m.v != any)
        {
            if (!r3 || (!too_long && (!r1 || !r2)))
                run.fail("legal-refused", what + " denotes " + show(m.d));
            if (r3 && !agrees(m, raw))
                run.fail("content-value", what + " reads " + show(raw) + ", denotes " + show(m.d));
            if (r1 && (!agrees(m, t.value()) || !agrees(m, u.value())))
                run.fail("content-value", what + " reads " + show(t.value()) + ", denotes " + show(m.d));
        }
        if (!r1 && (t.value() != 0 || u.value() != 42.5))
            run.fail("refused-changes-value", what + " is refused but changes the value");
        run.state(vf::hash_bytes(c));
        run.stat(m.v == refuse ? "malformed" : m.v == value ? "exact" : m.v == near ? "inexact" : "out_of_range", 1);
    };
    vf::for_strings(vf::all_bytes(), 0, 2, one);
    vf::for_strings({0x00, 0x01, 0x02, 0x7f, 0x80, 0x81, 0x82, 0x83, 0x93, 0xa1, 0xb0, 0xc0, 0xff, 0x40, 0x43}, 3, run.thorough ? 5 : 4, one);
    // every first octet of a binary real x exponents x mantissas
    std::vector<Bytes> exps;
    for (uint8_t v : {0x00, 0x01, 0x7f, 0x80, 0xff, 0xcb, 0x35})
        exps.push_back({v});
    for (int e : {-1074, -1075, -1023, -1022, -1021, -537, -300, -129, -128, 127, 128, 200, 255, 256, 300, 341, 342, 900, 970, 971, 1023, 1024, -400, -360, -270, 240, 255})
    {
        exps.push_back({static_cast<uint8_t>(e >> 8), static_cast<uint8_t>(e)});
        exps.push_back({static_cast<uint8_t>(e >> 16), static_cast<uint8_t>(e >> 8), static_cast<uint8_t>(e)});
        exps.push_back({static_cast<uint8_t>(e >> 24), static_cast<uint8_t>(e >> 16), static_cast<uint8_t>(e >> 8), static_cast<uint8_t>(e)});
    }
    for (const Bytes& b : {Bytes{0x7f, 0xff}, Bytes{0x80, 0x00}, Bytes{0x7f, 0xff, 0xff}, Bytes{0x80, 0, 0}, Bytes{0x7f, 0xff, 0xff, 0xff}, Bytes{0x80, 0, 0, 0},
                           Bytes{0x2a, 0xaa, 0xaa, 0xaa}, Bytes{0x2a, 0xaa, 0xaa, 0xab}, Bytes{0x20, 0, 0, 0}, Bytes{0xe0, 0, 0, 0}, Bytes{0xd5, 0x55, 0x55, 0x55}, Bytes{0x01, 0, 0, 0, 0},
                           Bytes{0xfe, 0, 0, 0, 0}, Bytes(8, 0x7f), Bytes(20, 0x40), Bytes(90, 0x81)})
        exps.push_back(b);
    std::vector<Bytes> mants = {{0}, {1}, {2}, {3}, {0x7f}, {0x80}, {0xff}, {0, 0}, {0, 1}, {1, 0}, {0xff, 0xff}, {0x1f, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff},
                                {0x3f, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}, {0x20, 0, 0, 0, 0, 0, 1}, {1, 0, 0, 0, 0, 0, 0, 0}, {1, 0, 0, 0, 0, 0, 0, 0, 0},
                                {0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}, {0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 5}, {0xab, 0xcd, 0xef, 0x01, 0x23, 0x45, 0x67, 0x89, 0xab}, {5, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0},
                                Bytes(60, 0), {}};
    if (run.thorough)
        for (int b = 0; b < 64; b++)
            for (int k = 0; k < 8; k++)
            {
                Bytes m(static_cast<size_t>(k) + 1, 0);
                m[static_cast<size_t>(b / 8) % m.size()] = static_cast<uint8_t>(1 << (b % 8));
                mants.push_back(m);
            }
    for (int first = 0x80; first < 0x100; first++)
        for (const Bytes& e : exps)
        {
            const int form = first & 3;
            if (form != 3 && e.size() != static_cast<size_t>(form) + 1)
                continue;
            for (const Bytes& m : mants)
            {
                Bytes c = {static_cast<uint8_t>(first)};
                if (form == 3)
                    c.push_back(static_cast<uint8_t>(e.size()));
                ref::cat(c, e);
                ref::cat(c, m);
                one(c);
            }
        }
    // decimal forms
    for (int form = 0; form < 8; form++)
        vf::for_strings(run.thorough ? Bytes{'0', '1', '9', '+', '-', '.', ',', ' ', 'E', 'e'} : Bytes{'0', '7', '+', '-', '.', ',', ' ', 'E'}, 0, form >= 1 && form <= 3 ? 5 : 3,
                        [&](const Bytes& s) {
                            Bytes c = {static_cast<uint8_t>(form)};
                            ref::cat(c, s);
                            one(c);
                        });
    for (const char* s : {"123456789012345678901234567890", "0.1", "3,14159265358979323846", "1.E0", ".5E1", "-1.7976931348623157E308", "4.9E-324", "2.2250738585072014E-308", "1.E+0", "9.E999", "1.E-999",
                          "  12", "+12", "1.5e3", "0x10", "inf", "nan", "1.5E", "1E5", "15.", "-.0", "1.0E+308", "1.7976931348623159E308", "12 ", "1 2", "1.2.3E4", "1\n", "\t1", "infinity.E1", "1.e1x"})
        for (int form = 0; form < 64; form++)
        {
            Bytes c = {static_cast<uint8_t>(form)};
            c.insert(c.end(), s, s + strlen(s));
            one(c);
        }
}

template <typename IA, typename IB>
struct RealF
{
    using A = Real<IA>;
    using B = Real<IB>;
    using V = double;
    static V              initial() { return 0; }
    static std::vector<V> values() { return {0, 1.5, -1e300, HUGE_VAL, 5e-324 * 0 - 3.0, -HUGE_VAL}; }
    static V              lit(V v) { return v; }
    static Bytes          content(V v)
    {
        Real<> r(v);
        Bytes  e;
        enc(r, e);
        return Bytes(e.begin() + 2, e.end());
    }
    static std::string show(V v) { return ::show(v); }
    template <typename T>
    static V           read(const T& t) { return t.value(); }
    static const std::vector<Bytes>& bad()
    {
        static const std::vector<Bytes> b = {{}, wrap({0x80}, IA{}), wrap({0xb0, 1, 1}, IA{}), wrap({0x40}, Id<Class::private_, 3>{}), wrap({3, '1'}, IA{}), wrap({0x44}, IA{})};
        return b;
    }
};

// Real::operator== takes nearly equal numbers for equal and has no overload for other identifiers
template <typename F>
struct RealHist : Hist<F>
{
    static size_t nops() { return Hist<F>::nops() - 1; } // assign() of another identifier goes through a conversion
};

int main(int argc, char** argv)
{
    run.init(argc, argv);
    using U  = ExplicitId<UniversalTag::real>;
    using S1 = Id<Class::context_specific, 5>;
    using L1 = Id<Class::private_, 200>;
    using D2 = DoubleId<Id<Class::context_specific, 16384>, Id<Class::private_, 128>>;
#if GROUP == 0
    doubles<U>("REAL");
    if (run.thorough)
        doubles<D2>("[16384] EXPLICIT [PRIVATE 128] REAL");
#elif GROUP == 1
    contents<U>("REAL");
    contents<L1>("[PRIVATE 200] REAL");
#else
    histories<RealHist<RealF<U, S1>>>("REAL", run.thorough ? 4 : 3);
    histories<RealHist<RealF<D2, L1>>>("EXPLICIT REAL", run.thorough ? 4 : 3);
#endif
    return run.finish();
}
