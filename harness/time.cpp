// C10: times: all boundary instants x formats x offsets (x time zones, one process each), all edits of legal strings,
// all short histories.
#include "hist.hpp"
#include "subject.hpp"

using namespace fast_ber;
using vf::Bytes;
using vf::hex;

static vf::Exact exact;

template <Class C, Tag T>
Bytes wrap(const Bytes& c, Id<C, T>, bool k = false)
{
    return ref::tlv(static_cast<int>(C), k, static_cast<uint64_t>(T), c);
}
template <typename O, typename I>
Bytes wrap(const Bytes& c, DoubleId<O, I>, bool k = false)
{
    return wrap(wrap(c, I{}, k), O{}, true);
}
static Bytes bytes(const std::string& s) { return Bytes(s.begin(), s.end()); }

// proleptic Gregorian calendar, independent of absl
struct Civil
{
    int64_t y;
    int     mo, d, h, mi, s;
};
static bool leap(int64_t y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
static int  days_in(int64_t y, int m)
{
    static const int n[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
    return m == 2 && leap(y) ? 29 : n[m - 1];
}
static int64_t days_before_year(int64_t y) // days from 0000-01-01
{
    int64_t p = y - 1;
    return y * 365 + (y == 0 ? 0 : p / 4 - p / 100 + p / 400 + 1);
}
static int64_t unix_seconds(const Civil& c)
{
    int64_t d = days_before_year(c.y);
    for (int m = 1; m < c.mo; m++)
        d += days_in(c.y, m);
    d += c.d - 1;
    return (d - days_before_year(1970)) * 86400 + c.h * 3600 + c.mi * 60 + c.s;
}
static std::string digits(const Civil& c)
{
    char b[40];
    snprintf(b, sizeof b, "%04d%02d%02d%02d%02d%02d", static_cast<int>(c.y), c.mo, c.d, c.h, c.mi, c.s);
    return b;
}

static std::vector<Civil> instants(bool all)
{
    std::vector<Civil> v;
    std::vector<int>   years = {0, 1, 4, 99, 100, 999, 1000, 1582, 1600, 1899, 1900, 1901, 1969, 1970, 1971, 1999, 2000, 2001, 2023, 2024, 2037, 2038, 2039, 2100, 2399, 2400, 9998, 9999};
    if (!all)
        years = {0, 1, 999, 1900, 1969, 1970, 2000, 2023, 2024, 2038, 9999};
    for (int y : years)
        for (int m = 1; m <= 12; m++)
            for (int d : {1, 2, 9, 10, 28, 29, 30, 31})
            {
                if (d > days_in(y, m) || (!all && m != 1 && m != 2 && m != 3 && m != 10 && m != 12))
                    continue;
                for (int t = 0; t < (all ? 8 : 5); t++)
                {
                    static const int hms[8][3] = {{0, 0, 0}, {23, 59, 59}, {9, 9, 9}, {12, 30, 1}, {1, 59, 59}, {10, 10, 10}, {0, 0, 1}, {20, 0, 58}};
                    v.push_back({y, m, d, hms[t][0], hms[t][1], hms[t][2]});
                }
            }
    return v;
}
static std::string zone(int off)
{
    char b[8];
    snprintf(b, sizeof b, "%c%02d%02d", off >= 0 ? '+' : '-', std::abs(off) / 60, std::abs(off) % 60);
    return b;
}
static const char* fname(int f) { return f == 0 ? "universal" : f == 1 ? "with offset" : "local"; }

template <typename T>
bool enc(const T& t, Bytes& out)
{
    const size_t               n = t.encoded_length();
    std::unique_ptr<uint8_t[]> b(new uint8_t[n]);
    auto                       r = t.encode(absl::Span<uint8_t>(b.get(), n));
    out.assign(b.get(), b.get() + n);
    return r.success && r.length == n;
}

// what a time that holds s, in format f, denoting an instant, must show
template <typename T>
void reads(const T& t, const std::string& s, int f, absl::Time want, const std::string& what)
{
    run.compared += 4;
    if (t.string() != s)
        run.fail("string", what + ": holds \"" + t.string() + "\", expected \"" + s + "\"");
    if (static_cast<int>(t.format()) != f)
        run.fail("format", what + ": reports format " + fname(static_cast<int>(t.format())) + ", expected " + fname(f));
    try
    {
        absl::Time got = t.time(), p;
        if (got != want)
            run.fail("instant", what + ": \"" + s + "\" reads as " + absl::FormatTime(absl::RFC3339_full, got, absl::UTCTimeZone()) + ", expected " +
                                    absl::FormatTime(absl::RFC3339_full, want, absl::UTCTimeZone()));
        if (!t.parse(p) || p != got)
            run.fail("instant", what + ": parse() and time() disagree");
    }
    catch (const std::exception& e)
    {
        run.fail("instant", what + ": \"" + s + "\" is not read: " + e.what());
    }
    Bytes       e;
    const Bytes w = wrap(bytes(s), typename T::AsnId{});
    if (!enc(t, e) || e != w)
        run.fail("encoding", what + ": encodes to [" + hex(e) + "], expected [" + hex(w) + "]");
}

template <typename T>
void values(const std::string& name)
{
    const auto tz = absl::LocalTimeZone();
    auto       one = [&](const Civil& c, int f, int off) {
        if (!run.next())
            return;
        const int64_t     u    = unix_seconds(c);
        const std::string what = name + " " + digits(c) + " " + fname(f) + (f == 1 ? " " + zone(off) : "");
        run.note(what);
        for (int64_t ns : {0, 1, 500000000, 999999999})
        {
            if (ns && f == 2)
                continue;
            const absl::Time at = absl::FromUnixSeconds(u) + absl::Nanoseconds(ns), kept = absl::FromUnixSeconds(u);
            T                t;
            std::string      s = digits(c);
            absl::Time       want = kept;
            if (f == 0)
            {
                t.set_time(at);
                s += "Z";
            }
            else if (f == 1)
            {
                t.set_time(at, off);
                s += zone(off);
            }
            else
            {
                const absl::CivilSecond cs(c.y, c.mo, c.d, c.h, c.mi, c.s);
                want = absl::FromCivil(cs, tz);
                if (absl::ToCivilSecond(want, tz) != cs)
                {
                    // skipped by a change of the clock: there is no such instant
                    run.stat("civil_times_that_do_not_exist", 1);
                    continue;
                }
                t.set_time(cs);
            }
            run.transitions++;
            reads(t, s, f, want, what);
            if (f == 0)
                reads(T(at), s, f, want, what + " constructed");
            // survives encoding and decoding, copying, and replacing another value
            Bytes e;
            enc(t, e);
            T d, o;
            o.set_time(absl::FromUnixSeconds(86400), 754);
            run.transitions += 4;
            if (!decode(exact.put(e), d).success || !decode(exact.put(e), o).success)
                run.fail("roundtrip", what + ": own encoding refused");
            reads(d, s, f, want, what + " decoded");
            reads(o, s, f, want, what + " decoded over another");
            T k(d), l;
            l = d;
            reads(k, s, f, want, what + " copied");
            reads(l, s, f, want, what + " assigned");
            if (!(d == t) || d != t)
                run.fail("compare", what + ": differs from its decoded self");
            T later;
            later.set_time(want + absl::Seconds(1));
            if (u < 253402300799 && (t == later || !(t != later)))
                run.fail("compare", what + ": equals the next second");
        }
        run.state(what);
        if (run.idx % 2003 == 9)
            run.sample(what);
    };
    for (const Civil& c : instants(run.thorough))
    {
        one(c, 0, 0);
        one(c, 2, 0);
        for (int off : {-1439, -900, -720, -61, -60, -59, -1, 0, 1, 59, 60, 330, 599, 600, 840, 1439})
            if (run.thorough || off == -1 || off == 330 || off == -720 || off == 1439)
                one(c, 1, off);
    }
    for (int off = -1439; off <= 1439; off++)
        one({2024, 2, 29, 23, 59, 58}, 1, off);
    for (int d = 0; d < (run.thorough ? 366 * 8 : 366 * 2); d++) // consecutive days and times of day
    {
        Civil c = {2023 - (d / 366 % 4) * 50, 1, 1, d % 24, d * 7 % 60, d * 13 % 60};
        int   n = d % 366;
        while (n >= days_in(c.y, c.mo))
        {
            n -= days_in(c.y, c.mo);
            if (++c.mo > 12)
                break;
        }
        if (c.mo > 12)
            continue;
        c.d = n + 1;
        one(c, 0, 0);
        one(c, 2, 0);
    }
    for (int s = 0; s < 86400; s += run.thorough ? 1 : 61)
        one({2024, 12, 31, s / 3600, s / 60 % 60, s % 60}, s & 1 ? 0 : 2, 0);
}

enum Kind
{
    legal_supported, // fourteen digits and an optional Z or offset
    legal_other,     // fractions, or without minutes or seconds: may be refused, may not be misread
    illegal
};
// X.680 clause 46
static Kind kind(const std::string& s, Civil& c, int& f)
{
    size_t n = 0;
    while (n < s.size() && s[n] >= '0' && s[n] <= '9')
        n++;
    std::string dig = s.substr(0, n), rest = s.substr(n);
    bool        frac = false;
    if (!rest.empty() && (rest[0] == '.' || rest[0] == ','))
    {
        size_t k = 1;
        while (k < rest.size() && rest[k] >= '0' && rest[k] <= '9')
            k++;
        if (k == 1)
            return illegal;
        frac = true;
        rest = rest.substr(k);
    }
    f = 2;
    if (rest == "Z")
        f = 0;
    else if (!rest.empty())
    {
        if (rest[0] != '+' && rest[0] != '-')
            return illegal;
        std::string o = rest.substr(1);
        if (o.size() != 2 && o.size() != 4)
            return illegal;
        for (char x : o)
            if (x < '0' || x > '9')
                return illegal;
        if (o.size() == 2)
            frac = true;
        f = 1;
        // an offset of a day or more is not one
        if ((o[0] - '0') * 10 + (o[1] - '0') > 23 || (o.size() == 4 && o[2] > '5'))
            return legal_other;
    }
    if (dig.size() != 10 && dig.size() != 12 && dig.size() != 14)
        return illegal;
    const bool other = frac || dig.size() != 14;
    dig.resize(14, '0');
    auto num = [&](size_t at, size_t k) { return atoi(dig.substr(at, k).c_str()); };
    c        = {num(0, 4), num(4, 2), num(6, 2), num(8, 2), num(10, 2), num(12, 2)};
    if (c.mo < 1 || c.mo > 12 || c.d < 1 || c.d > days_in(c.y, c.mo) || c.h > 23 || c.mi > 59 || c.s > 60)
        return illegal;
    if (c.s == 60)
        return legal_other;
    return other ? legal_other : legal_supported;
}

template <typename T>
void strings(const std::string& name)
{
    const auto            tz = absl::LocalTimeZone();
    std::set<std::string> seen;
    auto                  one = [&](const std::string& s) {
        if (!seen.insert(s).second || !run.next())
            return;
        const std::string what = name + " \"" + s + "\" [" + hex(bytes(s)) + "]";
        run.note(what);
        Civil      c{};
        int        f = 2;
        const Kind k = kind(s, c, f);
        T          t, old;
        old.set_time(absl::FromUnixSeconds(1700000000), -95);
        const Bytes w  = wrap(bytes(s), typename T::AsnId{});
        const bool  r1 = decode(exact.put(w), t).success, r2 = decode(exact.put(w), old).success;
        run.transitions += 2;
        run.compared += 3;
        if (r1 != r2)
            run.fail("history", what + ": acceptance depends on the value held");
        if (!r2)
            reads(old, "20231114221320-0135", 1, absl::FromUnixSeconds(1700000000), what + " refused, the earlier value");
        if (k == legal_supported)
        {
            if (!r1)
                run.fail("legal-refused", what);
            else
            {
                absl::Time want = f == 2 ? absl::FromCivil(absl::CivilSecond(c.y, c.mo, c.d, c.h, c.mi, c.s), tz) : absl::FromUnixSeconds(unix_seconds(c));
                reads(t, s, f, want, what);
                reads(old, s, f, want, what);
            }
        }
        else if (r1)
        {
            for (T* x : {&t, &old})
            {
                absl::Time at;
                bool       read = x->parse(at), threw = false;
                try
                {
                    absl::Time y = x->time();
                    if (!read || y != at)
                        run.fail("instant", what + ": parse() and time() disagree");
                }
                catch (const std::exception&)
                {
                    threw = true;
                }
                if (threw == read)
                    run.fail("instant", what + ": parse() and time() disagree");
                if (k == illegal && read)
                    run.fail("illegal-read", what + ": reads as " + absl::FormatTime(absl::RFC3339_full, at, absl::UTCTimeZone()));
                Bytes e;
                if (x->string() != s || !enc(*x, e) || e != w)
                    run.fail("string", what + ": not kept as received");
                (void)x->format();
            }
            if (!(t == old) || t != old)
                run.fail("compare", what + ": differs from itself");
            T other;
            if (k == illegal && t == other)
                run.fail("compare", what + ": equals a time");
        }
        run.state(s);
        run.stat(k == illegal ? "illegal_strings" : k == legal_other ? "other_legal_strings" : "legal_strings", 1);
    };
    const std::vector<std::string> seeds = {"20240229235959Z", "19700101000000+0130", "20010203040506", "00010101000000-2359", "99991231235959Z", "20231231235959"};
    const std::string              ab    = std::string("0123456789+-Z., :/z\nTinf", 24) + std::string(1, '\0') + "\x80\xff";
    for (const std::string& s : seeds)
    {
        one(s);
        for (size_t i = 0; i <= s.size(); i++)
        {
            one(s.substr(0, i));
            one(s.substr(i));
            for (char x : ab)
            {
                std::string r = s;
                if (i < s.size())
                {
                    r[i] = x;
                    one(r);
                    for (size_t j = 0; j < s.size(); j++)
                        for (char y : run.thorough ? ab : std::string("09+Z ."))
                        {
                            std::string q = r;
                            q[j]          = y;
                            one(q);
                        }
                }
                std::string in = s;
                in.insert(i, 1, x);
                one(in);
            }
            if (i < s.size())
            {
                std::string d = s;
                d.erase(i, 1);
                one(d);
            }
        }
    }
    // every month and day number, every hour, minute, second number
    for (int a = 0; a < 100; a++)
        for (int b = 0; b < 100; b++)
        {
            char x[32];
            snprintf(x, sizeof x, "2023%02d%02d101112Z", a, b);
            one(x);
            snprintf(x, sizeof x, "20230102%02d%02d12", a, b);
            one(x);
            snprintf(x, sizeof x, "2023010211%02d%02d+0000", a, b);
            one(x);
            snprintf(x, sizeof x, "20230102113412-%02d%02d", a, b);
            one(x);
        }
    for (const char* s : {"infinite-future", "infinite-past", "              ", "2024022923", "202402292359", "2024022923Z", "2024022923+01", "202402292359Z", "20240229235959.5Z", "20240229235959,123", "20240229235959.1+0100",
                          "2024022923.5", "202402292359.25Z", "+2024022923595Z", "-2024022923595Z", " 2024022923595Z", "2024 229235959Z", "20240229 35959Z", "20240229235959 ", "20240229235959Z ", "0x24022923595Z",
                          "20240229235959ZZ", "20240229235959-+100", "20240229235959+01:0", "20240229235959Z+0100"})
        one(s);
}

template <typename T>
struct Hist
{
    struct V
    {
        std::string s;
        int         f;
        absl::Time  at;
    };
    T a, b;
    V ma = initial(), mb = initial();

    static V initial() { return {"19700101000000Z", 0, absl::FromUnixSeconds(0)}; }
    static const std::vector<V>& vals()
    {
        static const std::vector<V> v = {{"20240229235959Z", 0, absl::FromUnixSeconds(1709251199)},
                                         {"19691231235959-0059", 1, absl::FromUnixSeconds(-1)},
                                         {"20240229235959+1400", 1, absl::FromUnixSeconds(1709251199)},
                                         {"20010203040506", 2, absl::FromCivil(absl::CivilSecond(2001, 2, 3, 4, 5, 6), absl::LocalTimeZone())}};
        return v;
    }
    static const std::vector<std::string>& bad()
    {
        static const std::vector<std::string> v = {"", "202402292", "20240229235959.123456789Z"};
        return v;
    }
    static size_t      nops() { return 3 * vals().size() + bad().size() + 9; }
    static std::string name(size_t o)
    {
        const size_t n = vals().size();
        if (o < 3 * n)
            return std::string(o / n == 0 ? "a.set " : o / n == 1 ? "b.set " : "a.decode ") + vals()[o % n].s;
        o -= 3 * n;
        if (o < bad().size())
            return "a.decode(\"" + bad()[o] + "\") refused";
        static const char* s[] = {"a = b", "b = a", "a = a", "a = move(b)", "a = T(b)", "a = T(move(b))", "a.decode(encode(b))", "a.decode(wrong tag)", "a.decode(nothing)"};
        return s[o - bad().size()];
    }
    static void set(T& t, const V& v)
    {
        if (v.f == 0)
            t.set_time(v.at);
        else if (v.f == 1)
            t.set_time(v.at, (v.s[14] == '-' ? -1 : 1) * (atoi(v.s.substr(15, 2).c_str()) * 60 + atoi(v.s.substr(17, 2).c_str())));
        else
            t.set_time(absl::CivilSecond(2001, 2, 3, 4, 5, 6));
    }
    bool apply(size_t o)
    {
        using I        = typename T::AsnId;
        const size_t n = vals().size();
        if (o < 3 * n)
        {
            const V& v = vals()[o % n];
            if (o / n == 0)
                set(a, v), ma = v;
            else if (o / n == 1)
                set(b, v), mb = v;
            else
            {
                if (!decode(exact.put(wrap(bytes(v.s), I{})), a).success)
                    run.fail("legal-refused", v.s);
                ma = v;
            }
            return true;
        }
        o -= 3 * n;
        if (o < bad().size())
        {
            if (decode(exact.put(wrap(bytes(bad()[o]), I{})), a).success)
                return false; // unspecified
            return true;
        }
        switch (o - bad().size())
        {
        case 0: a = b; ma = mb; break;
        case 1: b = a; mb = ma; break;
        case 2:
        {
            T& r = a;
            a    = r;
            break;
        }
        case 3: a = std::move(b); ma = mb; set(b, vals()[0]); mb = vals()[0]; break;
        case 4: a = T(b); ma = mb; break;
        case 5: a = T(std::move(b)); ma = mb; set(b, vals()[1]); mb = vals()[1]; break;
        case 6:
        {
            Bytes e;
            enc(b, e);
            if (!decode(exact.put(e), a).success)
                run.fail("roundtrip", "own encoding refused");
            ma = mb;
            break;
        }
        case 7:
            if (decode(exact.put(wrap(bytes("20240229235959Z"), Id<Class::private_, 3>{})), a).success)
                run.fail("wrong-tag", "accepted");
            break;
        case 8:
            if (decode(exact.put(Bytes{}), a).success)
                run.fail("wrong-tag", "accepted");
            break;
        }
        return true;
    }
    void check(const std::function<std::string()>& trace) const
    {
        const std::string t = trace();
        reads(a, ma.s, ma.f, ma.at, t + " : a");
        reads(b, mb.s, mb.f, mb.at, t + " : b");
        if ((a == b) != (ma.at == mb.at) || (a != b) == (ma.at == mb.at))
            run.fail("compare", t + " : a and b compare wrongly");
    }
    std::string key() const { return ma.s + "|" + mb.s; }
};

int main(int argc, char** argv)
{
    run.init(argc, argv);
    using L1 = Id<Class::private_, 200>;
    using D2 = DoubleId<Id<Class::context_specific, 16384>, Id<Class::private_, 128>>;
    const std::string tz = absl::LocalTimeZone().name();
    values<GeneralizedTime<>>("GeneralizedTime in " + tz);
    if (tz == "UTC")
    {
        values<GeneralizedTime<D2>>("[16384] EXPLICIT [PRIVATE 128] GeneralizedTime");
        strings<GeneralizedTime<>>("GeneralizedTime");
        histories<Hist<GeneralizedTime<>>>("GeneralizedTime", run.thorough ? 4 : 3);
        histories<Hist<UTCTime<L1>>>("[PRIVATE 200] UTCTime", run.thorough ? 4 : 3);
        histories<Hist<GeneralizedTime<D2>>>("[16384] EXPLICIT [PRIVATE 128] GeneralizedTime", run.thorough ? 4 : 3);
    }
    return run.finish();
}
