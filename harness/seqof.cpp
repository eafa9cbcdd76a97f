// C13: SEQUENCE OF and SET OF: all short lists, all edits of their encodings, all short histories.
#include "valhist.hpp"

template <typename I>
bool strip(const Bytes& s, Bytes& content, bool k, I);
template <Class C, Tag T>
bool strip(const Bytes& s, Bytes& content, bool k, Id<C, T>)
{
    const ref::Elem e = ref::parse(s);
    if (!e.ok || e.cls != static_cast<int>(C) || e.tag != static_cast<uint64_t>(T) || e.constructed != k)
        return false;
    content.assign(s.begin() + static_cast<long>(e.hdr), s.begin() + static_cast<long>(e.total()));
    return true;
}
template <typename O, typename I>
bool strip(const Bytes& s, Bytes& content, bool k, DoubleId<O, I>)
{
    Bytes in;
    if (!strip(s, in, true, O{}))
        return false;
    return strip(in, content, k, I{});
}

// element types: value <-> octets, by reference
struct EInt
{
    using T = Integer<>;
    using V = int64_t;
    static std::vector<V> values() { return {0, -1, 128, INT64_MIN}; }
    static Bytes          ref_enc(V v) { return ref::tlv(0, false, 2, ref::integer(v)); }
    static T              make(V v) { return T(v); }
    static V              read(const T& t) { return t.value(); }
    static bool           ref_dec(const Bytes& s, V& v)
    {
        Bytes c;
        if (!strip(s, c, false, T::AsnId{}) || c.empty() || c.size() > 8)
            return false;
        v = c[0] & 0x80 ? -1 : 0;
        for (uint8_t b : c)
            v = static_cast<V>(static_cast<uint64_t>(v) << 8 | b);
        return true;
    }
};
struct EBool
{
    using T = Boolean<DoubleId<Id<Class::context_specific, 2>, Id<Class::private_, 300>>>;
    using V = bool;
    static std::vector<V> values() { return {false, true}; }
    static Bytes          ref_enc(V v) { return ref::tlv(2, true, 2, ref::tlv(3, false, 300, {static_cast<uint8_t>(v ? 255 : 0)})); }
    static T              make(V v) { return T(v); }
    static V              read(const T& t) { return t.value(); }
    static bool           ref_dec(const Bytes& s, V& v)
    {
        Bytes c;
        if (!strip(s, c, false, T::AsnId{}) || c.size() != 1)
            return false;
        v = c[0] != 0;
        return true;
    }
};
struct EStr
{
    using T = OctetString<Id<Class::context_specific, 40>>;
    using V = std::string;
    static std::vector<V> values() { return {"", std::string("\x00\x02\x01", 3), std::string(123, 'x')}; }
    static Bytes          ref_enc(const V& v) { return ref::tlv(2, false, 40, Bytes(v.begin(), v.end())); }
    static T              make(const V& v) { return T(v); }
    static V              read(const T& t) { return std::string(t.begin(), t.end()); }
    static bool           ref_dec(const Bytes& s, V& v)
    {
        Bytes c;
        if (!strip(s, c, false, T::AsnId{}))
            return false;
        v.assign(c.begin(), c.end());
        return true;
    }
};
template <typename E>
struct EList
{
    using T = SequenceOf<typename E::T>;
    using V = std::vector<typename E::V>;
    static std::vector<V> values()
    {
        auto v = E::values();
        return {{}, {v[0]}, {v[1], v[0]}};
    }
    static Bytes ref_enc(const V& v)
    {
        Bytes c;
        for (const auto& x : v)
            ref::cat(c, E::ref_enc(x));
        return ref::tlv(0, true, 16, c);
    }
    static T make(const V& v)
    {
        T t;
        for (const auto& x : v)
            t.push_back(E::make(x));
        return t;
    }
    static V read(const T& t)
    {
        V v;
        for (const auto& x : t)
            v.push_back(E::read(x));
        return v;
    }
    static bool ref_dec(const Bytes& s, V& v)
    {
        Bytes c;
        v.clear();
        if (!strip(s, c, true, typename T::AsnId{}))
            return false;
        while (!c.empty())
        {
            const ref::Elem   e = ref::parse(c);
            typename E::V     x;
            if (!e.ok)
                return false;
            const Bytes one(c.begin(), c.begin() + static_cast<long>(e.total()));
            if (!E::ref_dec(one, x))
                return false;
            v.push_back(x);
            c.erase(c.begin(), c.begin() + static_cast<long>(e.total()));
        }
        return true;
    }
};

template <typename E, typename L>
struct Lists
{
    using V = std::vector<typename E::V>;
    std::string           name;
    std::set<uint64_t>    seen;
    static Bytes          content(const V& v)
    {
        Bytes c;
        for (const auto& x : v)
            ref::cat(c, E::ref_enc(x));
        return c;
    }
    static bool ref_dec(const Bytes& s, V& v)
    {
        Bytes c;
        v.clear();
        if (!strip(s, c, true, typename L::AsnId{}))
            return false;
        while (!c.empty())
        {
            const ref::Elem e = ref::parse(c);
            typename E::V   x;
            if (!e.ok)
                return false;
            if (!E::ref_dec(Bytes(c.begin(), c.begin() + static_cast<long>(e.total())), x))
                return false;
            v.push_back(x);
            c.erase(c.begin(), c.begin() + static_cast<long>(e.total()));
        }
        return true;
    }
    static V read(const L& l)
    {
        V v;
        for (const auto& x : l)
            v.push_back(E::read(x));
        return v;
    }
    void value(const V& v, const std::string& what)
    {
        if (!run.next())
            return;
        run.note(name + " " + what);
        L l;
        for (const auto& x : v)
            l.push_back(E::make(x));
        Bytes       e;
        const Bytes want = wrap(content(v), typename L::AsnId{}, true);
        run.transitions += v.size() + 3;
        run.compared += 4;
        if (!enc(l, e) || e != want)
            run.fail("list-encoding", name + " " + what + ": encodes to [" + hex(e) + "], expected [" + hex(want) + "]");
        L d;
        if (!decode(exact.put(want), d).success || d.size() != v.size() || read(d) != v)
            run.fail("list-decoding", name + " " + what + ": [" + hex(want) + "] does not decode to its elements");
        if (!(d == l) || d != l)
            run.fail("list-compare", name + " " + what + ": the decoded list differs from the one encoded");
        run.state(vf::hash_bytes(want, vf::hash_bytes(name.data(), name.size())));
    }
    void wire(const Bytes& s)
    {
        if (!seen.insert(vf::hash_bytes(s)).second)
            return;
        if (!run.next())
            return;
        run.note(name + " <- [" + hex(s) + "]");
        V          v;
        const bool want = ref_dec(s, v);
        L          l;
        const bool got = decode(exact.put(s), l).success;
        run.transitions++;
        run.compared++;
        if (got && !want)
            run.fail("list-malformed-accepted", name + " <- [" + hex(s) + "]: accepted with " + std::to_string(l.size()) + " elements");
        if (!got && want)
            run.fail("list-refused", name + " <- [" + hex(s) + "]: refused");
        if (got && want && read(l) != v)
            run.fail("list-elements", name + " <- [" + hex(s) + "]: other elements than those sent");
        if (got && want)
        {
            // the elements are those of the wire, and stay so when encoded and decoded again
            Bytes e;
            L     m;
            run.compared++;
            if (!enc(l, e) || !decode(exact.put(e), m).success || read(m) != v)
                run.fail("list-again", name + " <- [" + hex(s) + "]: encoding the decoded list and decoding that changes it");
        }
        run.stat(got ? "accepted" : "refused", 1);
        run.state(vf::hash_bytes(s, vf::hash_bytes(name.data(), name.size(), got ? 3 : 5)));
    }
    void all(const std::string& n)
    {
        name               = n;
        const auto   vals  = E::values();
        const size_t depth = vals.size() > 3 ? (run.thorough ? 6 : 4) : (run.thorough ? 8 : 6);
        std::vector<V> small;
        for (size_t len = 0; len <= depth; len++)
        {
            std::vector<size_t> d(len, 0);
            while (true)
            {
                V           v;
                std::string w = "{";
                for (size_t i : d)
                {
                    v.push_back(vals[i]);
                    w += " #" + std::to_string(i);
                }
                value(v, w + " }");
                if (len <= 3)
                    small.push_back(v);
                size_t i = len;
                while (i > 0 && ++d[i - 1] == vals.size())
                    d[--i] = 0;
                if (i == 0)
                    break;
            }
        }
        // long lists: content lengths around every change of the length octets
        for (const auto& x : vals)
        {
            const size_t u = E::ref_enc(x).size();
            for (size_t target : {100u, 127u, 255u, 300u, 65535u})
            {
                if (target == 65535 && !run.thorough && u > 3)
                    continue;
                for (size_t k = target / u; k <= target / u + 1; k++)
                    value(V(k, x), std::to_string(k) + " elements of " + std::to_string(u) + " octets");
            }
        }
        for (size_t k = 0; k <= (run.thorough ? 300u : 130u); k++)
            value(V(k, vals[0]), std::to_string(k) + " elements");
        // edits of encodings
        const Bytes marks = {0x00, 0x01, 0x02, 0x03, 0x1f, 0x30, 0x7f, 0x80, 0x81, 0x82, 0xff};
        for (const V& v : small)
        {
            const Bytes c = content(v);
            const Bytes s = wrap(c, typename L::AsnId{}, true);
            wire(s);
            if (s.size() > 60)
                continue;
            for (size_t n = 0; n <= s.size(); n++)
                wire(Bytes(s.begin(), s.begin() + static_cast<long>(n)));
            const bool full = v.size() <= (run.thorough ? 3 : 2);
            for (size_t i = 0; i < s.size(); i++)
            {
                for (int b = 0; b < 256; b += full ? 1 : 5)
                {
                    Bytes x = s;
                    x[i]    = static_cast<uint8_t>(b);
                    wire(x);
                }
                if (v.size() <= 2)
                    for (uint8_t a : marks)
                        for (size_t j = i + 1; j < s.size(); j++)
                            for (uint8_t b : marks)
                            {
                                Bytes x = s;
                                x[i]    = a;
                                x[j]    = b;
                                wire(x);
                            }
            }
            // the content edited with the length octets kept right: leftovers, truncations, insertions
            auto with = [&](const Bytes& k) { wire(wrap(k, typename L::AsnId{}, true)); };
            for (size_t n = 0; n < c.size(); n++)
            {
                with(Bytes(c.begin(), c.begin() + static_cast<long>(n)));
                with(Bytes(c.begin() + static_cast<long>(n), c.end()));
                Bytes x = c;
                x.erase(x.begin() + static_cast<long>(n));
                with(x);
            }
            for (size_t n = 0; n <= c.size(); n++)
                for (int b = 0; b < 256; b += full ? 1 : 5)
                {
                    Bytes x = c;
                    x.insert(x.begin() + static_cast<long>(n), static_cast<uint8_t>(b));
                    with(x);
                }
            vf::for_strings(marks, 1, run.thorough ? 3 : 2, [&](const Bytes& t) {
                Bytes x = c;
                ref::cat(x, t);
                with(x);
            });
            // an element of another type at every place
            for (const Bytes& f : {Bytes{0x05, 0x00}, Bytes{0x02, 0x00}, Bytes{0x22, 0x03, 0x02, 0x01, 0x00}, Bytes{0x30, 0x00}, Bytes{0xbf, 0x28, 0x00},
                                   Bytes{0xa2, 0x00}, Bytes{0x00, 0x00}})
                for (size_t i = 0; i <= v.size(); i++)
                {
                    Bytes x = content(V(v.begin(), v.begin() + static_cast<long>(i)));
                    ref::cat(x, f);
                    ref::cat(x, content(V(v.begin() + static_cast<long>(i), v.end())));
                    with(x);
                }
        }
    }
};

// histories over two lists of one type and one of another storage and identifier
template <typename E, typename A, typename B>
struct Hists
{
    using V = std::vector<typename E::V>;
    A x[2];
    B y;
    V m[3];
    bool known[3] = {true, true, true};

    static const std::vector<typename E::V>& vals() { static const auto v = E::values(); return v; }
    static size_t                            nops() { return 24; }
    static std::string                       name(size_t o)
    {
        static const char* f[] = {"a.push_back(#1)", "a.push_back(#0)", "b.push_back(#1)", "c.push_back(#1)", "a=b", "b=a", "a=move(b)", "a=A(b)",
                                  "a=self", "a=A(c)", "c=B(a)", "a=six elements", "a.clear()", "a.pop_back()", "a.decode({})", "a.decode({#0,#1})",
                                  "c.decode({#1})", "a.decode(encode(b))", "a.decode(malformed)", "swap(a,b)", "a.erase(first)", "a.resize(7)",
                                  "a={#0,#1}", "a.insert(begin,#1)"};
        return f[o];
    }
    template <typename T>
    void dec(T& t, const V& v)
    {
        if (!decode(exact.put(wrap(Lists<E, T>::content(v), typename T::AsnId{}, true)), t).success)
            run.fail("history-decode", "a valid encoding is refused");
    }
    bool apply(size_t o)
    {
        A& a = x[0];
        A& b = x[1];
        const auto& v = vals();
        if ((o < 2 || (o >= 12 && o <= 13) || o == 20 || o == 21 || o == 23) && !known[0])
            return false;
        if ((o == 2 || o == 17) && !known[1])
            return false;
        switch (o)
        {
        case 0: a.push_back(E::make(v[1])); m[0].push_back(v[1]); break;
        case 1: a.push_back(E::make(v[0])); m[0].push_back(v[0]); break;
        case 2: b.push_back(E::make(v[1])); m[1].push_back(v[1]); break;
        case 3: y.push_back(E::make(v[1])); m[2].push_back(v[1]); break;
        case 4: a = b; m[0] = m[1]; known[0] = known[1]; break;
        case 5: b = a; m[1] = m[0]; known[1] = known[0]; break;
        case 6: a = std::move(b); m[0] = m[1]; known[0] = known[1]; known[1] = false; break;
        case 7: a = A(b); m[0] = m[1]; known[0] = known[1]; break;
        case 8:
        {
            A& r = a;
            a    = r;
            break;
        }
        case 9: a = A(y); m[0] = m[2]; known[0] = true; break;
        case 10:
            if (!known[0])
                return false;
            y = B(a);
            m[2] = m[0];
            break;
        case 11:
        {
            A t;
            m[0].clear();
            for (int i = 0; i < 6; i++)
            {
                t.push_back(E::make(v[i % 2]));
                m[0].push_back(v[i % 2]);
            }
            a        = std::move(t);
            known[0] = true;
            break;
        }
        case 12: a.clear(); m[0].clear(); break;
        case 13:
            if (m[0].empty())
                return false;
            a.pop_back();
            m[0].pop_back();
            break;
        case 14: dec(a, {}); m[0] = {}; known[0] = true; break;
        case 15: dec(a, {v[0], v[1]}); m[0] = {v[0], v[1]}; known[0] = true; break;
        case 16: dec(y, {v[1]}); m[2] = {v[1]}; break;
        case 17:
        {
            Bytes e;
            if (!enc(b, e) || !decode(exact.put(e), a).success)
                run.fail("history-decode", "its own encoding is refused");
            m[0]     = m[1];
            known[0] = known[1];
            break;
        }
        case 18:
        {
            Bytes c = E::ref_enc(v[1]);
            ref::cat(c, {0x05, 0x00});
            if (decode(exact.put(wrap(c, typename A::AsnId{}, true)), a).success)
                run.fail("history-decode", "a list holding another type is accepted");
            known[0] = false;
            break;
        }
        case 19:
            std::swap(a, b);
            std::swap(m[0], m[1]);
            std::swap(known[0], known[1]);
            break;
        case 20:
            if (m[0].empty())
                return false;
            a.erase(a.begin());
            m[0].erase(m[0].begin());
            break;
        case 21:
            while (a.size() < 7)
            {
                a.emplace_back(E::make(v[0]));
                m[0].push_back(v[0]);
            }
            a.resize(7);
            m[0].resize(7, v[0]);
            break;
        case 22:
            a        = A({E::make(v[0]), E::make(v[1])});
            m[0]     = {v[0], v[1]};
            known[0] = true;
            break;
        case 23: a.insert(a.begin(), E::make(v[1])); m[0].insert(m[0].begin(), v[1]); break;
        }
        return true;
    }
    template <typename T>
    void check1(const T& t, const V& v, const char* which, const std::function<std::string()>& trace)
    {
        Bytes       e;
        const Bytes want = wrap(Lists<E, T>::content(v), typename T::AsnId{}, true);
        run.compared += 3;
        if (!enc(t, e) || e != want)
            run.fail("history-encoding", trace() + " : " + which + " encodes to [" + hex(e) + "], expected [" + hex(want) + "]");
        if (t.size() != v.size() || Lists<E, T>::read(t) != v)
            run.fail("history-elements", trace() + " : " + which + " holds other elements");
        T     c(t), d(std::move(c));
        Bytes f;
        if (!enc(d, f) || f != want)
            run.fail("history-copy", trace() + " : a copy of " + which + " moved on encodes to [" + hex(f) + "]");
        c = t;
        if (!enc(c, f) || f != want)
            run.fail("history-copy", trace() + " : a moved-from copy of " + which + " does not take a new value");
    }
    void check(const std::function<std::string()>& trace)
    {
        for (int i = 0; i < 2; i++)
        {
            if (known[i])
                check1(x[i], m[i], i ? "b" : "a", trace);
            else
            {
                Bytes e;
                if (!enc(x[i], e))
                    run.fail("history-encoding", trace() + " : does not encode into its own encoded length");
            }
        }
        check1(y, m[2], "c", trace);
        run.compared += 2;
        if (known[0] && known[1] && ((x[0] == x[1]) != (m[0] == m[1]) || (x[0] != x[1]) == (m[0] == m[1])))
            run.fail("history-compare", trace() + " : comparison of a and b disagrees");
        if (known[0] && ((x[0] == y) != (m[0] == m[2]) || (x[0] != y) == (m[0] == m[2])))
            run.fail("history-compare", trace() + " : comparison of a and c disagrees");
    }
    std::string key() const
    {
        std::string s;
        for (int i = 0; i < 3; i++)
        {
            s += known[i] ? ";" : "?";
            s += hex(Lists<E, A>::content(m[i]));
        }
        return s;
    }
};

int main(int argc, char** argv)
{
    run.init(argc, argv);
    using D  = DoubleId<Id<Class::context_specific, 3>, ExplicitId<UniversalTag::sequence>>;
    using D2 = DoubleId<Id<Class::application, 31>, Id<Class::private_, 5>>;
    const size_t d = run.thorough ? 5 : 4;
    (void)d;
#if GROUP == 0
    Lists<EInt, SequenceOf<Integer<>>>().all("SEQUENCE OF INTEGER");
    Lists<EInt, SequenceOf<Integer<>, Id<Class::context_specific, 50>, StorageMode::dynamic>>().all("[50] SEQUENCE OF INTEGER dynamic");
    Lists<EBool, SequenceOf<EBool::T, D>>().all("[3] EXPLICIT SEQUENCE OF [2][PRIVATE 300] BOOLEAN");
    histories<Hists<EInt, SequenceOf<Integer<>>, SequenceOf<Integer<>, D, StorageMode::dynamic>>>("SEQUENCE OF INTEGER", d);
#elif GROUP == 1
    Lists<EStr, SetOf<EStr::T>>().all("SET OF [40] OCTET STRING");
    Lists<EStr, SequenceOf<EStr::T, D2, StorageMode::dynamic>>().all("[APPLICATION 31][PRIVATE 5] SEQUENCE OF [40] OCTET STRING dynamic");
    histories<Hists<EStr, SetOf<EStr::T, Id<Class::application, 3>>, SequenceOf<EStr::T, D2, StorageMode::dynamic>>>("SET OF OCTET STRING", d);
#else
    using Inner = EList<EInt>;
    Lists<Inner, SequenceOf<Inner::T>>().all("SEQUENCE OF SEQUENCE OF INTEGER");
    Lists<EList<Inner>, SequenceOf<EList<Inner>::T, D>>().all("[3] EXPLICIT SEQUENCE OF SEQUENCE OF SEQUENCE OF INTEGER");
    histories<Hists<Inner, SequenceOf<Inner::T, D, StorageMode::dynamic>, SequenceOf<Inner::T>>>("SEQUENCE OF SEQUENCE OF INTEGER", d);
#endif
    return run.finish();
}
