// C04: INTEGER, BOOLEAN, NULL and ENUMERATED: all boundary values, all short contents, all short histories.
#include "valhist.hpp"

enum class Colour : int
{
    min_ = -2147483647 - 1,
    neg  = -129,
    red  = 0,
    green = 5,
    big   = 300,
    max_  = 2147483647
};
enum class Tiny : int8_t
{
    a = -128,
    b = 0,
    c = 127
};
enum class Wide : uint32_t
{
    a = 0,
    b = 0xffffffffu
};

static std::vector<int64_t> integers(bool thorough)
{
    std::set<int64_t> s = {INT64_MIN, INT64_MIN + 1, INT64_MAX, INT64_MAX - 1};
    const int64_t     n = thorough ? 70000 : 1100;
    for (int64_t i = -n; i <= n; i++)
        s.insert(i);
    for (int k = 0; k < 63; k++)
        for (int64_t d = -3; d <= 3; d++)
        {
            int64_t p = int64_t(1) << k;
            s.insert(p + d);
            s.insert(-p + d);
        }
    for (int k = 0; k < 8; k++) // one octet set, others 00 or ff
        for (int v = 0; v < 256; v++)
        {
            uint64_t x = static_cast<uint64_t>(v) << (8 * k);
            s.insert(static_cast<int64_t>(x));
            s.insert(static_cast<int64_t>(~x));
        }
    return {s.begin(), s.end()};
}

template <typename T>
void expect_enc(const T& t, const Bytes& e, const char* key, const std::string& what)
{
    Bytes b;
    run.compared++;
    run.transitions++;
    if (!enc(t, b) || b != e)
        run.fail(key, what + ": encodes to [" + hex(b) + "], expected [" + hex(e) + "]");
}

template <typename I>
void integer_values(const std::string& name)
{
    for (int64_t v : integers(run.thorough))
    {
        if (!run.next())
            continue;
        const std::string what = name + " value " + std::to_string(v);
        const Bytes       want = wrap(ref::integer(v), I{});
        Integer<I>        a(v), b, c(int64_t(77));
        b = v;
        c.assign(v);
        Integer<I>                    d(a);
        Integer<I>                    e{BerView(exact.put(want))};
        Integer<Id<Class::private_, 77>> f(a);
        Integer<I>                    g = Integer<I>(f);
        Integer<I>                    h(int64_t(-1));
        const bool                    ok = decode(exact.put(want), h).success;
        run.compared += 9;
        run.transitions += 8;
        for (const Integer<I>* x : {&a, &b, &c, &d, &e, &g, &h})
        {
            expect_enc(*x, want, "integer-encoding", what);
            if (x->value() != v)
                run.fail("integer-value", what + ": reads " + std::to_string(x->value()));
            if (!(*x == v) || *x != v || !(*x == a) || *x != a)
                run.fail("integer-compare", what + ": not equal to itself");
            if (*x == (v ^ 1))
                run.fail("integer-compare", what + ": equal to another number");
        }
        if (!ok)
            run.fail("integer-roundtrip", what + ": refused");
        if (f.value() != v)
            run.fail("integer-copy", what + ": copied to another identifier reads " + std::to_string(f.value()));
        expect_enc(f, wrap(ref::integer(v), Id<Class::private_, 77>{}), "integer-copy", what);
        run.state(vf::hash_bytes(want));
        if (run.idx % 5003 == 1)
            run.sample(what + " -> [" + hex(want) + "]");
    }
}

template <typename T>
struct Traits;
template <typename I>
struct Traits<Integer<I>>
{
    static bool legal(const Bytes& c) { return c.size() >= 1 && c.size() <= 8; }
    static bool holds(const Integer<I>& t, const Bytes& c) { return t.value() == ref::integer_value(c.data(), c.size()); }
    static void set(Integer<I>& t) { t = 1234567; }
    static bool kept(const Integer<I>& t) { return t.value() == 1234567; }
};
template <typename I>
struct Traits<Boolean<I>>
{
    static bool legal(const Bytes& c) { return c.size() == 1; }
    static bool holds(const Boolean<I>& t, const Bytes& c) { return t.value() == (c[0] != 0) && bool(t) == (c[0] != 0); }
    static void set(Boolean<I>& t) { t = true; }
    static bool kept(const Boolean<I>& t) { return t.value(); }
};
template <typename I>
struct Traits<Null<I>>
{
    static bool legal(const Bytes& c) { return c.empty(); }
    static bool holds(const Null<I>&, const Bytes&) { return true; }
    static void set(Null<I>&) {}
    static bool kept(const Null<I>&) { return true; }
};
template <typename E, typename I>
struct Traits<Enumerated<E, I>>
{
    static bool legal(const Bytes& c)
    {
        if (!(c.size() >= 1 && c.size() <= 8))
            return false;
        int64_t v = ref::integer_value(c.data(), c.size());
        using U   = typename std::underlying_type<E>::type;
        return v >= static_cast<int64_t>(std::numeric_limits<U>::min()) &&
               v <= static_cast<int64_t>(std::numeric_limits<U>::max());
    }
    static bool holds(const Enumerated<E, I>& t, const Bytes& c)
    {
        return static_cast<int64_t>(t.value()) == ref::integer_value(c.data(), c.size());
    }
    static void set(Enumerated<E, I>& t) { t = static_cast<E>(127); }
    static bool kept(const Enumerated<E, I>& t) { return t.value() == static_cast<E>(127); }
};

template <typename T>
void contents(const std::string& name)
{
    using I  = typename T::AsnId;
    auto one = [&](const Bytes& c) {
        if (!run.next())
            return;
        const std::string what = name + " content [" + hex(c) + "]";
        const Bytes       w    = wrap(c, I{});
        T                 t, u;
        Traits<T>::set(u);
        const bool r1 = decode(exact.put(w), t).success;
        const bool r2 = decode(exact.put(w), u).success;
        const bool l  = Traits<T>::legal(c);
        run.transitions += 2;
        run.compared += 4;
        if (r1 != l || r2 != l)
            run.fail(l ? "content-refused" : "content-accepted", what);
        if (l)
        {
            if (!Traits<T>::holds(t, c) || !Traits<T>::holds(u, c))
                run.fail("content-value", what + ": wrong value");
            // what was received is sent on unchanged, and denotes the same value there
            Bytes b1, b2;
            enc(t, b1);
            enc(u, b2);
            T v;
            if (b1 != b2 || !decode(exact.put(b1), v).success || !Traits<T>::holds(v, c))
                run.fail("content-reencode", what + ": re-encoded [" + hex(b1) + "] / [" + hex(b2) + "]");
        }
        else
        {
            if (!Traits<T>::kept(u))
                run.fail("refused-changes-value", what + ": the refused content changed the value");
            T     fresh;
            Bytes b1, b2;
            enc(t, b1);
            enc(fresh, b2);
            if (b1 != b2)
                run.fail("refused-changes-value", what + ": the refused content changed a new object");
        }
        run.state(vf::hash_bytes(w));
    };
    vf::for_strings(vf::all_bytes(), 0, 2, one);
    const Bytes a = {0x00, 0x01, 0x7f, 0x80, 0x81, 0xff};
    vf::for_strings(a, 3, run.thorough ? 8 : 5, one);
    const Bytes b = {0x00, 0x7f, 0xff};
    vf::for_strings(b, 6, run.thorough ? 10 : 9, one);
    for (size_t n : {10u, 16u, 100u, 126u, 127u, 128u, 129u, 200u, 255u, 256u, 300u})
        for (uint8_t v : {0x00, 0x01, 0xff})
            one(Bytes(n, v));
}

template <typename IA, typename IB>
struct IntF
{
    using A = Integer<IA>;
    using B = Integer<IB>;
    using V = int64_t;
    static V                     initial() { return 0; }
    static std::vector<V>        values() { return {0, -1, 127, 128, -129, 65536, INT64_MAX, INT64_MIN}; }
    static V                     lit(V v) { return v; }
    static Bytes                 content(V v) { return ref::integer(v); }
    static std::string           show(V v) { return std::to_string(v); }
    template <typename T>
    static V                     read(const T& t) { return t.value(); }
    static const std::vector<Bytes>& bad()
    {
        static const std::vector<Bytes> b = {{}, wrap({}, IA{}), wrap(Bytes(9, 1), IA{}), wrap({7}, Id<Class::private_, 3>{}),
                                      wrap({7}, IA{}, true)};
        return b;
    }
};
template <typename IA, typename IB>
struct BoolF
{
    using A = Boolean<IA>;
    using B = Boolean<IB>;
    using V = bool;
    static V              initial() { return false; }
    static std::vector<V> values() { return {false, true}; }
    static V              lit(V v) { return v; }
    static Bytes          content(V v) { return {static_cast<uint8_t>(v ? 0xff : 0)}; }
    static std::string    show(V v) { return v ? "true" : "false"; }
    template <typename T>
    static V              read(const T& t) { return t.value(); }
    static const std::vector<Bytes>& bad()
    {
        static const std::vector<Bytes> b = {{}, wrap({}, IA{}), wrap({1, 1}, IA{}), wrap({7}, Id<Class::private_, 3>{}),
                                      wrap({7}, IA{}, true)};
        return b;
    }
};
template <typename IA, typename IB>
struct EnumF
{
    using A = Enumerated<Colour, IA>;
    using B = Enumerated<Colour, IB>;
    using V = int64_t;
    static V              initial() { return 0; }
    static std::vector<V> values() { return {0, 5, 300, -129, 2147483647, -2147483648ll}; }
    static Colour         lit(V v) { return static_cast<Colour>(v); }
    static Bytes          content(V v) { return ref::integer(v); }
    static std::string    show(V v) { return std::to_string(v); }
    template <typename T>
    static V              read(const T& t) { return static_cast<int64_t>(t.value()); }
    static const std::vector<Bytes>& bad()
    {
        static const std::vector<Bytes> b = {{}, wrap({}, IA{}), wrap(ref::integer(int64_t(1) << 40), IA{}),
                                      wrap({7}, Id<Class::private_, 3>{}), wrap({7}, IA{}, true)};
        return b;
    }
};

using S1 = Id<Class::context_specific, 5>;
using L1 = Id<Class::private_, 200>;
template <UniversalTag t>
using D1 = DoubleId<Id<Class::application, 40>, ExplicitId<t>>;
using D2 = DoubleId<Id<Class::context_specific, 16384>, Id<Class::private_, 128>>;

int main(int argc, char** argv)
{
    run.init(argc, argv);
    using UI = ExplicitId<UniversalTag::integer>;
    using UB = ExplicitId<UniversalTag::boolean>;
    using UE = ExplicitId<UniversalTag::enumerated>;
    using UN = ExplicitId<UniversalTag::null>;
    integer_values<UI>("INTEGER");
    integer_values<S1>("[5] INTEGER");
    integer_values<L1>("[PRIVATE 200] INTEGER");
    integer_values<D1<UniversalTag::integer>>("[APPLICATION 40] EXPLICIT INTEGER");
    integer_values<D2>("[16384] EXPLICIT [PRIVATE 128] INTEGER");
    contents<Integer<UI>>("INTEGER");
    contents<Integer<L1>>("[PRIVATE 200] INTEGER");
    contents<Integer<D2>>("[16384] EXPLICIT [PRIVATE 128] INTEGER");
    contents<Boolean<UB>>("BOOLEAN");
    contents<Boolean<L1>>("[PRIVATE 200] BOOLEAN");
    contents<Boolean<D2>>("[16384] EXPLICIT [PRIVATE 128] BOOLEAN");
    contents<Null<UN>>("NULL");
    contents<Null<L1>>("[PRIVATE 200] NULL");
    contents<Null<D2>>("[16384] EXPLICIT [PRIVATE 128] NULL");
    contents<Enumerated<Colour, UE>>("ENUMERATED");
    contents<Enumerated<Tiny, S1>>("[5] ENUMERATED (8 bit)");
    contents<Enumerated<Wide, D1<UniversalTag::enumerated>>>("[APPLICATION 40] ENUMERATED (32 bit unsigned)");
    const size_t d = run.thorough ? 4 : 3;
    histories<Hist<IntF<UI, S1>>>("INTEGER", d);
    histories<Hist<IntF<D2, L1>>>("EXPLICIT INTEGER", d);
    histories<Hist<BoolF<UB, S1>>>("BOOLEAN", d);
    histories<Hist<BoolF<D2, UB>>>("EXPLICIT BOOLEAN", d);
    histories<Hist<EnumF<UE, S1>>>("ENUMERATED", d);
    histories<Hist<EnumF<D2, L1>>>("EXPLICIT ENUMERATED", d);
    return run.finish();
}
