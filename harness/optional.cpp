// C11: OPTIONAL and DEFAULT wrappers: all histories over two wrappers, for both storage modes.
#include "valhist.hpp"

struct Ints
{
    using T = Integer<>;
    static std::vector<T> values() { return {T(0), T(7), T(-129)}; }
    static constexpr int  reads() { return 1; }
};
struct LongInts
{
    using T = Integer<DoubleId<Id<Class::context_specific, 3>, Id<Class::private_, 200>>>;
    static std::vector<T> values() { return {T(0), T(65536)}; }
};
struct Bools
{
    using T = Boolean<Id<Class::context_specific, 1>>;
    static std::vector<T> values() { return {T(false), T(true)}; }
};
struct Strings
{
    using T = OctetString<Id<Class::context_specific, 40>>;
    static std::vector<T> values() { return {T(""), T("abc"), T(std::string(130, 'x'))}; }
};
struct Lists
{
    using T = SequenceOf<Integer<>>;
    static std::vector<T> values()
    {
        T a, b;
        b.push_back(1);
        b.push_back(300);
        return {a, b};
    }
};
struct Choices_
{
    struct T : Choice<Choices<Boolean<>, OctetString<>>>
    {
        using B = Choice<Choices<Boolean<>, OctetString<>>>;
        using B::B;
        size_t       encoded_length() const noexcept { return this->encoded_length_old(); }
        EncodeResult encode(absl::Span<uint8_t> o) const noexcept { return this->encode_old(o); }
        DecodeResult decode(BerView i) noexcept { return this->decode_old(i); }
    };
    static std::vector<T> values()
    {
        T a(true), b(OctetString<>("zz"));
        return {a, b};
    }
};

template <typename T>
const std::vector<Bytes>& encodings(const std::vector<T>& vs)
{
    static const std::vector<Bytes> e = [&] {
        std::vector<Bytes> r;
        for (const T& v : vs)
        {
            r.emplace_back();
            enc(v, r.back());
        }
        return r;
    }();
    return e;
}
static const Bytes foreign = {0x5f, 0x55, 0x02, 0x01, 0x02}; // [APPLICATION 85], belongs to no subject

// ---- OPTIONAL ----------------------------------------------------------------------------------------------------
template <typename F, StorageMode S>
struct Opt
{
    using T = typename F::T;
    using O = Optional<T, S>;
    static const std::vector<T>&     V() { static const std::vector<T> v = F::values(); return v; }
    static const std::vector<Bytes>& E() { return encodings(V()); }
    static const int unknown = -2;
    // model: -1 absent, i >= 0 the value, unknown: valid but unspecified
    O   x[2];
    int m[2] = {-1, -1};

    static size_t per() { return 6 * V().size() + 13; }
    static size_t nops() { return 2 * per() + 1; }
    static std::string name(size_t o)
    {
        if (o == 2 * per())
            return "swap(a,b)";
        const std::string s(1, "ab"[o / per()]), r(1, "ba"[o / per()]);
        o %= per();
        const size_t n = V().size();
        if (o < 6 * n)
        {
            static const char* f[] = {"=value", ".emplace(value)", ".emplace()=value", "=T(*)value", ".decode(value)", ".decode(iterator at value)"};
            return s + f[o / n] + "#" + std::to_string(o % n);
        }
        o -= 6 * n;
        static const char* f[] = {"=empty", "=other", "=O(other)", "=move(other)", "=self", "=move(self)", ".decode(absent)", ".decode(foreign)",
                                  ".decode(iterator at foreign)", ".decode(iterator at end)", "=O()", "=*self", ".decode(encode(other))"};
        return s + f[o];
    }
    bool dec_iter(O& t, const Bytes& content, size_t consumed, const char* what)
    {
        const Bytes     seq = ref::tlv(0, true, 16, content);
        BerView         v(exact.put(seq));
        BerViewIterator it = v.begin();
        const bool      ok = decode(it, t).success;
        // what the iterator now points at
        Bytes rest(content.begin() + static_cast<long>(consumed), content.end());
        Bytes at;
        if (it->is_valid())
            at.assign(it->ber().begin(), it->ber().end());
        run.compared++;
        if (rest.size() < at.size() || !std::equal(at.begin(), at.end(), rest.begin()) || (at.empty() != rest.empty()))
            run.fail("optional-iterator", std::string(what) + ": the iterator then stands at [" + hex(at) + "], expected at [" + hex(rest) + "]");
        return ok;
    }
    bool apply(size_t o)
    {
        if (o == 2 * per())
        {
            std::swap(x[0], x[1]);
            std::swap(m[0], m[1]);
            return true;
        }
        const size_t w = o / per();
        O&           t = x[w];
        O&           u = x[1 - w];
        int&         k = m[w];
        int&         l = m[1 - w];
        o %= per();
        const size_t n = V().size();
        if (o < 6 * n)
        {
            const size_t i = o % n;
            k              = static_cast<int>(i);
            switch (o / n)
            {
            case 0: t = V()[i]; break;
            case 1: t.emplace(V()[i]); break;
            case 2: t.emplace() = V()[i]; break;
            case 3:
                if (t.has_value())
                    *t = V()[i];
                else
                    return false;
                break;
            case 4:
                if (!decode(exact.put(E()[i]), t).success)
                    run.fail("optional-decode", "a valid encoding is refused");
                break;
            default:
            {
                Bytes c = E()[i];
                ref::cat(c, foreign);
                if (!dec_iter(t, c, E()[i].size(), "present component"))
                    run.fail("optional-decode", "a valid encoding is refused");
            }
            }
            return true;
        }
        switch (o - 6 * n)
        {
        case 0: t = empty; k = -1; break;
        case 1: t = u; k = l; break;
        case 2: t = O(u); k = l; break;
        case 3: t = std::move(u); k = l; l = unknown; break;
        case 4:
        {
            O& r = t;
            t    = r;
            break;
        }
        case 5:
        {
            O& r = t;
            t    = std::move(r);
            k    = unknown;
            break;
        }
        case 6:
            if (!t.decode(BerView()).success)
                run.fail("optional-decode", "an absent component is refused");
            k = -1;
            break;
        case 7:
            if (decode(exact.put(foreign), t).success)
                run.fail("optional-decode", "another component is accepted");
            k = unknown;
            break;
        case 8:
            if (!dec_iter(t, foreign, 0, "absent component"))
                run.fail("optional-decode", "an absent component is refused");
            k = -1;
            break;
        case 9:
            if (!dec_iter(t, {}, 0, "absent component"))
                run.fail("optional-decode", "an absent component is refused");
            k = -1;
            break;
        case 10: t = O(); k = -1; break;
        case 11:
            if (!t.has_value() || k == unknown)
                return false;
            t = *t;
            break;
        case 12:
        {
            Bytes b;
            if (!enc(u, b))
                run.fail("optional-encode", "does not encode into its own encoded length");
            if (!(b.empty() ? t.decode(BerView()) : decode(exact.put(b), t)).success)
                run.fail("optional-decode", "its own encoding is refused");
            k = l;
            break;
        }
        }
        return true;
    }
    void check1(const O& t, int k, const char* which, const std::function<std::string()>& trace)
    {
        Bytes e;
        run.compared += 3;
        const bool ok = enc(t, e);
        if (!ok)
            run.fail("optional-encode", trace() + " : " + which + " does not encode into its own encoded length");
        if (k == unknown)
            return;
        if (t.has_value() != (k >= 0) || bool(t) != (k >= 0))
            run.fail("optional-presence", trace() + " : " + which + (t.has_value() ? " is present" : " is absent"));
        const Bytes want = k < 0 ? Bytes{} : E()[static_cast<size_t>(k)];
        if (e != want)
            run.fail("optional-encoding", trace() + " : " + which + " encodes to [" + hex(e) + "], expected [" + hex(want) + "]");
        if (k >= 0 && t.has_value() && !(*t == V()[static_cast<size_t>(k)]))
            run.fail("optional-value", trace() + " : " + which + " does not equal the value it was given");
        // a copy and a moved copy hold the same
        O     c(t);
        Bytes f;
        enc(c, f);
        O     d(std::move(c));
        Bytes g;
        enc(d, g);
        if (f != want || g != want)
            run.fail("optional-copy", trace() + " : a copy of " + which + " encodes to [" + hex(f) + "], moved on to [" + hex(g) + "]");
        c = V()[0];
        if (!c.has_value() || !(*c == V()[0]))
            run.fail("optional-reuse", trace() + " : a moved-from copy of " + which + " does not take a new value");
    }
    void check(const std::function<std::string()>& trace)
    {
        check1(x[0], m[0], "a", trace);
        check1(x[1], m[1], "b", trace);
        if (m[0] != unknown && m[1] != unknown)
        {
            run.compared += 2;
            if ((x[0] == x[1]) != (m[0] == m[1]) || (x[0] != x[1]) == (m[0] == m[1]))
                run.fail("optional-compare", trace() + " : comparison disagrees with the values");
        }
        for (int w = 0; w < 2; w++)
            if (m[w] != unknown)
                for (size_t i = 0; i < V().size(); i++)
                {
                    const bool same = m[w] == static_cast<int>(i);
                    run.compared += 2;
                    if ((x[w] == V()[i]) != same || (x[w] != V()[i]) == same)
                        run.fail("optional-compare", trace() + " : comparison with a value disagrees");
                }
    }
    std::string key() const { return std::to_string(m[0]) + "," + std::to_string(m[1]); }
};

// ---- DEFAULT -----------------------------------------------------------------------------------------------------
struct Seven
{
    constexpr static int64_t get_value() noexcept { return 7; }
};
struct False
{
    constexpr static bool get_value() noexcept { return false; }
};
struct Abc
{
    static absl::string_view get_value() noexcept { return "abc"; }
};
struct Long
{
    static absl::string_view get_value() noexcept
    {
        static const std::string s(130, 'x');
        return s;
    }
};
struct ShortInts
{
    using T = Integer<>;
    using D = Seven;
    static std::vector<int64_t> values() { return {7, 0, 1000}; } // first: the default
};
struct TaggedInts
{
    using T = Integer<DoubleId<Id<Class::context_specific, 3>, Id<Class::private_, 200>>>;
    using D = Seven;
    static std::vector<int64_t> values() { return {7, -1}; }
};
struct FalseBools
{
    using T = Boolean<Id<Class::context_specific, 1>>;
    using D = False;
    static std::vector<bool> values() { return {false, true}; }
};
struct AbcStrings
{
    using T = UTF8String<>;
    using D = Abc;
    static std::vector<std::string> values() { return {"abc", "", "abcd"}; }
};
struct LongStrings
{
    using T = OctetString<Id<Class::context_specific, 40>>;
    using D = Long;
    static std::vector<std::string> values() { return {std::string(130, 'x'), std::string(129, 'x'), "x"}; }
};

template <typename F>
struct Def
{
    using T = typename F::T;
    using O = Default<T, typename F::D>;
    static const std::vector<T>& V()
    {
        static const std::vector<T> v = [] {
            std::vector<T> r;
            for (const auto& l : F::values())
                r.push_back(T(l));
            return r;
        }();
        return v;
    }
    static const std::vector<Bytes>& E() { return encodings(V()); }
    static const int unknown = -2;
    O   x[2];
    int m[2] = {0, 0};

    static size_t per() { return 5 * V().size() + 13; }
    static size_t nops() { return 2 * per() + 1; }
    static std::string name(size_t o)
    {
        if (o == 2 * per())
            return "swap(a,b)";
        const std::string s(1, "ab"[o / per()]);
        o %= per();
        const size_t n = V().size();
        if (o < 5 * n)
        {
            static const char* f[] = {"=literal", "=value", "=O(literal)", ".decode(value)", ".decode(iterator at value)"};
            return s + f[o / n] + "#" + std::to_string(o % n);
        }
        o -= 5 * n;
        static const char* f[] = {".set_to_default()", "=other", "=O(other)", "=move(other)", "=self", ".decode(absent)", ".decode(foreign)",
                                  ".decode(iterator at foreign)", ".decode(iterator at end)", "=O()", "=self.get()", ".decode(encode(other))", "=other.get()"};
        return s + f[o];
    }
    bool dec_iter(O& t, const Bytes& content, size_t consumed, const char* what)
    {
        const Bytes     seq = ref::tlv(0, true, 16, content);
        BerView         v(exact.put(seq));
        BerViewIterator it = v.begin();
        const bool      ok = decode(it, t).success;
        Bytes           rest(content.begin() + static_cast<long>(consumed), content.end());
        Bytes           at;
        if (it->is_valid())
            at.assign(it->ber().begin(), it->ber().end());
        run.compared++;
        if (rest.size() < at.size() || !std::equal(at.begin(), at.end(), rest.begin()) || (at.empty() != rest.empty()))
            run.fail("default-iterator", std::string(what) + ": the iterator then stands at [" + hex(at) + "], expected at [" + hex(rest) + "]");
        return ok;
    }
    bool apply(size_t o)
    {
        if (o == 2 * per())
        {
            std::swap(x[0], x[1]);
            std::swap(m[0], m[1]);
            return true;
        }
        const size_t w = o / per();
        O&           t = x[w];
        O&           u = x[1 - w];
        int&         k = m[w];
        int&         l = m[1 - w];
        o %= per();
        const size_t n = V().size();
        if (o < 5 * n)
        {
            const size_t i = o % n;
            k              = static_cast<int>(i);
            const auto lits = F::values();
            switch (o / n)
            {
            case 0:
            {
                const typename decltype(lits)::value_type lit = lits[i];
                t                                             = lit;
                break;
            }
            case 1: t = V()[i]; break;
            case 2:
            {
                const typename decltype(lits)::value_type lit = lits[i];
                t                                             = O(lit);
                break;
            }
            case 3:
                if (!decode(exact.put(E()[i]), t).success)
                    run.fail("default-decode", "a valid encoding is refused");
                break;
            default:
            {
                Bytes c = E()[i];
                ref::cat(c, foreign);
                if (!dec_iter(t, c, E()[i].size(), "present component"))
                    run.fail("default-decode", "a valid encoding is refused");
            }
            }
            return true;
        }
        switch (o - 5 * n)
        {
        case 0: t.set_to_default(); k = 0; break;
        case 1: t = u; k = l; break;
        case 2: t = O(u); k = l; break;
        case 3: t = std::move(u); k = l; l = unknown; break;
        case 4:
        {
            O& r = t;
            t    = r;
            break;
        }
        case 5:
            if (!t.decode(BerView()).success)
                run.fail("default-decode", "an absent component is refused");
            k = 0;
            break;
        case 6:
            if (decode(exact.put(foreign), t).success)
                run.fail("default-decode", "another component is accepted");
            k = unknown;
            break;
        case 7:
            if (!dec_iter(t, foreign, 0, "absent component"))
                run.fail("default-decode", "an absent component is refused");
            k = 0;
            break;
        case 8:
            if (!dec_iter(t, {}, 0, "absent component"))
                run.fail("default-decode", "an absent component is refused");
            k = 0;
            break;
        case 9: t = O(); k = 0; break;
        case 10:
            if (k == unknown)
                return false;
            t = t.get();
            break;
        case 11:
        {
            Bytes b;
            if (!enc(u, b))
                run.fail("default-encode", "does not encode into its own encoded length");
            if (!(b.empty() ? t.decode(BerView()) : decode(exact.put(b), t)).success)
                run.fail("default-decode", "its own encoding is refused");
            k = l;
            break;
        }
        case 12: t = u.get(); k = l; break;
        }
        return true;
    }
    void check1(const O& t, int k, const char* which, const std::function<std::string()>& trace)
    {
        Bytes e;
        run.compared += 3;
        const bool ok = enc(t, e);
        if (!ok)
            run.fail("default-encode", trace() + " : " + which + " does not encode into its own encoded length");
        if (k == unknown)
            return;
        const Bytes want = k == 0 ? Bytes{} : E()[static_cast<size_t>(k)];
        if (e != want)
            run.fail("default-encoding", trace() + " : " + which + " encodes to [" + hex(e) + "], expected [" + hex(want) + "]");
        if (t.is_default() != (k == 0))
            run.fail("default-presence", trace() + " : is_default() of " + which + " is wrong");
        if (!(t.get() == V()[static_cast<size_t>(k)]) || t.value() != V()[static_cast<size_t>(k)].value())
            run.fail("default-value", trace() + " : " + which + " does not equal the value it was given");
        O     c(t);
        Bytes f;
        enc(c, f);
        O     d(std::move(c));
        Bytes g;
        enc(d, g);
        if (f != want || g != want)
            run.fail("default-copy", trace() + " : a copy of " + which + " encodes to [" + hex(f) + "], moved on to [" + hex(g) + "]");
        c = V()[1];
        if (c.is_default() || !(c.get() == V()[1]))
            run.fail("default-reuse", trace() + " : a moved-from copy of " + which + " does not take a new value");
    }
    void check(const std::function<std::string()>& trace)
    {
        check1(x[0], m[0], "a", trace);
        check1(x[1], m[1], "b", trace);
        if (m[0] != unknown && m[1] != unknown)
        {
            run.compared += 2;
            if ((x[0] == x[1]) != (m[0] == m[1]) || (x[0] != x[1]) == (m[0] == m[1]))
                run.fail("default-compare", trace() + " : comparison disagrees with the values");
        }
        const auto lits = F::values();
        for (int w = 0; w < 2; w++)
            if (m[w] != unknown)
                for (size_t i = 0; i < V().size(); i++)
                {
                    const bool                                same = m[w] == static_cast<int>(i);
                    const typename decltype(lits)::value_type lit  = lits[i];
                    run.compared += 2;
                    if ((x[w] == lit) != same || (x[w] != lit) == same)
                        run.fail("default-compare", trace() + " : comparison with a literal disagrees");
                }
    }
    std::string key() const { return std::to_string(m[0]) + "," + std::to_string(m[1]); }
};

int main(int argc, char** argv)
{
    run.init(argc, argv);
    const size_t d = run.thorough ? 4 : 3;
    (void)d;
#if GROUP == 0
    histories<Opt<Ints, StorageMode::static_>>("Optional<INTEGER>", d);
    histories<Opt<Ints, StorageMode::dynamic>>("Optional<INTEGER, dynamic>", d);
    histories<Opt<LongInts, StorageMode::static_>>("Optional<[3][PRIVATE 200] INTEGER>", 3);
    histories<Opt<LongInts, StorageMode::dynamic>>("Optional<[3][PRIVATE 200] INTEGER, dynamic>", 3);
    histories<Opt<Bools, StorageMode::static_>>("Optional<BOOLEAN>", 3);
    histories<Opt<Bools, StorageMode::dynamic>>("Optional<BOOLEAN, dynamic>", 3);
#elif GROUP == 1
    histories<Opt<Strings, StorageMode::static_>>("Optional<[40] OCTET STRING>", d);
    histories<Opt<Strings, StorageMode::dynamic>>("Optional<[40] OCTET STRING, dynamic>", d);
    histories<Opt<Lists, StorageMode::static_>>("Optional<SEQUENCE OF INTEGER>", 3);
    histories<Opt<Lists, StorageMode::dynamic>>("Optional<SEQUENCE OF INTEGER, dynamic>", 3);
    histories<Opt<Choices_, StorageMode::static_>>("Optional<CHOICE>", 3);
    histories<Opt<Choices_, StorageMode::dynamic>>("Optional<CHOICE, dynamic>", 3);
#elif GROUP == 2
    histories<Def<ShortInts>>("INTEGER DEFAULT 7", d);
    histories<Def<TaggedInts>>("[3][PRIVATE 200] INTEGER DEFAULT 7", 3);
    histories<Def<FalseBools>>("[1] BOOLEAN DEFAULT FALSE", d);
    histories<Def<AbcStrings>>("UTF8String DEFAULT \"abc\"", d);
    histories<Def<LongStrings>>("[40] OCTET STRING DEFAULT 130 octets", 3);
#endif
    return run.finish();
}
