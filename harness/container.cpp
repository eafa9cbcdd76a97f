// C26: owning containers: all histories over two containers.
#include "fast_ber/util/BerContainer.hpp"
#include "fast_ber/util/FixedIdBerContainer.hpp"
#include "fast_ber/util/SmallFixedIdBerContainer.hpp"
#include "valhist.hpp"

static Bytes pattern(size_t n)
{
    Bytes b(n);
    for (size_t i = 0; i < n; i++)
        b[i] = static_cast<uint8_t>(i * 7 + n);
    return b;
}

// ---- BerContainer ------------------------------------------------------------------------------------------------
struct M
{
    bool  valid = true, known = true;
    int   cls = 0;
    bool  con = false;
    uint64_t tag = 0;
    Bytes content;
    Bytes id{0x00}, len{0x00}; // the octets of the header
    Bytes ber() const
    {
        Bytes b = id;
        ref::cat(b, len);
        ref::cat(b, content);
        return b;
    }
};
static M elem(int cls, bool con, uint64_t tag, const Bytes& c)
{
    M m;
    m.cls     = cls;
    m.con     = con;
    m.tag     = tag;
    m.content = c;
    m.id      = ref::ident(cls, con, tag);
    m.len     = ref::length(c.size());
    return m;
}
static M invalid()
{
    M m;
    m.valid = false;
    return m;
}
static M unknown()
{
    M m;
    m.known = false;
    return m;
}

struct Sys
{
    using C = BerContainer;
    C x[2];
    M m[2];

    static const std::vector<size_t>& sizes()
    {
        static const std::vector<size_t> s = {0, 3, 98, 127, 128, 300};
        return s;
    }
    // encodings of various identifiers, not all in the shortest form
    static const std::vector<M>& wires()
    {
        static const std::vector<M> w = [] {
            std::vector<M> v = {elem(0, false, 4, pattern(2)), elem(2, false, 31, pattern(130)), elem(3, true, 200, {0x02, 0x01, 0x05, 0x04, 0x00})};
            M              l = elem(1, false, 5, pattern(3));
            l.len            = {0x82, 0x00, 0x03};
            v.push_back(l);
            M t  = elem(1, false, 5, pattern(3));
            t.id = {0x5f, 0x80, 0x05};
            v.push_back(t);
            return v;
        }();
        return w;
    }
    static size_t per() { return 3 * sizes().size() + 2 * wires().size() + 20; }
    static size_t nops() { return 2 * per() + 1; }
    static std::string name(size_t o)
    {
        if (o == 2 * per())
            return "swap(a,b)";
        const std::string s(1, "ab"[o / per()]);
        o %= per();
        const size_t n = sizes().size();
        if (o < 3 * n)
        {
            static const char* f[] = {".assign_content", ".assign_content(application,40,)", ".resize_content"};
            return s + f[o / n] + " " + std::to_string(sizes()[o % n]);
        }
        o -= 3 * n;
        const size_t w = wires().size();
        if (o < 2 * w)
            return s + (o < w ? ".decode" : "=view ") + "#" + std::to_string(o % w);
        o -= 2 * w;
        static const char* f[] = {"=other", "=C(other)", "=move(other)", "=C(move(other))", "=self", "=move(self)", ".decode(refused)", "=invalid view",
                                  ".assign_content(own content)", ".assign_content(private,2,own content)", ".assign_content(tail of own content)", ".decode(own view)",
                                  ".decode(first child of own view)", ".decode(last child of own view)", "=C(content, provided)", "=C(packet)", "=C(construction,..)",
                                  "=C()", ".content()[0]^=1", "=C(view of other)"};
        return s + f[o];
    }
    bool apply(size_t o)
    {
        if (o == 2 * per())
        {
            std::swap(x[0], x[1]);
            std::swap(m[0], m[1]);
            return true;
        }
        C& c = x[o / per()];
        C& d = x[1 - o / per()];
        M& k = m[o / per()];
        M& l = m[1 - o / per()];
        o %= per();
        const size_t n = sizes().size();
        if (o < 3 * n)
        {
            const Bytes p = pattern(sizes()[o % n]);
            switch (o / n)
            {
            case 0: c.assign_content(exact.put(p)); k = elem(0, false, 0, p); break;
            case 1: c.assign_content(Construction::primitive, Class::application, 40, exact.put(p)); k = elem(1, false, 40, p); break;
            case 2:
                if (!k.known || !k.valid)
                    return false;
                {
                    const Bytes old = k.content;
                    c.resize_content(p.size());
                    k.len = ref::length(p.size());
                    k.content.resize(p.size());
                    k.con = false; // no longer a sequence of whole children
                    // octets added by growing are not specified
                    if (c.content_length() == p.size())
                        for (size_t i = old.size(); i < p.size(); i++)
                        {
                            c.content()[i] = static_cast<uint8_t>(i + 1);
                            k.content[i]   = static_cast<uint8_t>(i + 1);
                        }
                }
                break;
            }
            return true;
        }
        o -= 3 * n;
        const size_t w = wires().size();
        if (o < 2 * w)
        {
            const M& v    = wires()[o % w];
            Bytes    data = v.ber();
            ref::cat(data, {0x02, 0x01, 0xff}); // octets behind the element
            if (o < w)
            {
                if (!c.decode(BerView(exact.put(data))).success)
                    run.fail("container-decode", "a valid element is refused");
            }
            else
                c = BerView(exact.put(data));
            memset(exact.get(data.size()), 0xEE, data.size()); // the container owns its octets
            k = v;
            return true;
        }
        switch (o - 2 * w)
        {
        case 0: c = d; k = l; break;
        case 1: c = C(d); k = l; break;
        case 2: c = std::move(d); k = l; l = unknown(); break;
        case 3: c = C(std::move(d)); k = l; l = unknown(); break;
        case 4:
        {
            C& r = c;
            c    = r;
            break;
        }
        case 5:
        {
            C& r = c;
            c    = std::move(r);
            k    = unknown();
            break;
        }
        case 6:
            for (const Bytes& bad : {Bytes{}, Bytes{0x04}, Bytes{0x04, 0x05, 0x01}, Bytes{0x1f}, Bytes{0x04, 0x80, 0, 0}})
                if (c.decode(BerView(exact.put(bad))).success)
                    run.fail("container-decode", "[" + hex(bad) + "] is accepted");
            k = invalid();
            break;
        case 7: c = BerView(); k = invalid(); break;
        case 8:
            if (!k.known || !k.valid)
                return false;
            c.assign_content(c.content());
            k = elem(0, false, 0, k.content);
            break;
        case 9:
            if (!k.known || !k.valid)
                return false;
            c.assign_content(Construction::primitive, Class::private_, 2, c.content());
            k = elem(3, false, 2, k.content);
            break;
        case 10:
            if (!k.known || !k.valid || k.content.size() < 2)
                return false;
            c.assign_content(c.content().subspan(1));
            k = elem(0, false, 0, Bytes(k.content.begin() + 1, k.content.end()));
            break;
        case 11:
            if (!k.known)
                return false;
            c.decode(c.view());
            break;
        case 12:
        case 13:
        {
            if (!k.known || !k.valid || !k.con)
                return false;
            BerView first = *c.view().begin();
            BerView last  = *++c.view().begin();
            c.decode(o - 2 * w == 12 ? first : last);
            k = o - 2 * w == 12 ? elem(0, false, 2, {0x05}) : elem(0, false, 4, {});
            break;
        }
        case 14: c = C(exact.put(pattern(130)), ConstructionMethod::construct_with_provided_content); k = elem(0, false, 0, pattern(130)); break;
        case 15: c = C(exact.put(wires()[1].ber()), ConstructionMethod::construct_from_ber_packet); k = wires()[1]; break;
        case 16: c = C(Construction::constructed, Class::context_specific, 7, exact.put(Bytes{0x05, 0x00})); k = elem(2, true, 7, {0x05, 0x00}); k.con = false; break;
        case 17: c = C(); k = M(); break;
        case 18:
            if (!k.known || !k.valid || k.content.empty())
                return false;
            c.content()[0] ^= 1;
            k.content[0] ^= 1;
            k.con = false;
            break;
        case 19: c = C(d.view()); k = l; break;
        }
        return true;
    }
    void check1(C& c, const M& k, const char* which, const std::function<std::string()>& trace)
    {
        run.compared += 8;
        auto say = [&](const std::string& s) { run.fail("container", trace() + " : " + which + " " + s); };
        if (!k.known)
        {
            // whatever it holds is its own: reading it touches nothing else
            Bytes b(c.ber().begin(), c.ber().end());
            (void)b;
            return;
        }
        if (c.is_valid() != k.valid || c.view().is_valid() != k.valid)
            say(k.valid ? "is invalid" : "is valid");
        if (!k.valid || !c.is_valid())
            return;
        const C&    cc   = c;
        const Bytes want = k.ber();
        Bytes       got(cc.ber().begin(), cc.ber().end());
        if (got != want || cc.ber_length() != want.size())
        {
            say("holds [" + hex(got) + "], expected [" + hex(want) + "]");
            return;
        }
        if (Bytes(cc.content().begin(), cc.content().end()) != k.content || cc.content_length() != k.content.size() || c.content_data() != c.content().data() ||
            cc.content_data() != cc.ber_data() + cc.header_length())
            say("content is wrong");
        if (cc.tag() != static_cast<Tag>(k.tag) || static_cast<int>(cc.class_()) != k.cls || (cc.construction() == Construction::constructed) != ((k.id[0] & 0x20) != 0))
            say("identifier is wrong");
        if (cc.identifier_length() != k.id.size() || cc.header_length() != k.id.size() + k.len.size())
            say("header length is wrong");
        BerView v(cc.ber());
        if (!v.is_valid() || v.ber_length() != want.size())
            say("is not one element");
        Bytes out(want.size(), 0xAA);
        auto  r = cc.encode(absl::MakeSpan(out));
        if (!r.success || r.length != want.size() || out != want)
            say("encodes to [" + hex(out) + "]");
        if (!want.empty() && cc.encode(exact.fill(want.size() - 1, 0)).success)
            say("encodes into too small a buffer");
        // a copy has its own octets
        C copy(c), moved(std::move(copy));
        if (!k.content.empty())
            moved.content()[0] ^= 0x55;
        copy = c;
        if (Bytes(cc.ber().begin(), cc.ber().end()) != want || Bytes(copy.ber().begin(), copy.ber().end()) != want)
            say("changes with its copy");
    }
    void check(const std::function<std::string()>& trace)
    {
        check1(x[0], m[0], "a", trace);
        check1(x[1], m[1], "b", trace);
    }
    std::string key() const
    {
        std::string s;
        for (const M& k : m)
            s += (k.known ? k.valid ? "=" : "!" : "?") + std::string(k.con ? "c" : "p") + hex(k.ber()) + ";";
        return s;
    }
};

// ---- containers with a fixed identifier ----------------------------------------------------------------------------
template <typename C, typename D, typename I, typename J, size_t Max>
struct Fixed
{
    C     a, b;
    D     e; // another identifier
    Bytes m[3];
    bool  known[3] = {true, true, true};

    static const std::vector<size_t>& sizes()
    {
        static const std::vector<size_t> s = Max > 200 ? std::vector<size_t>{0, 5, 123, 124, 125, 126, 127, 128, 300}
                                                       : std::vector<size_t>{0, 5, Max - 1, Max};
        return s;
    }
    static size_t nops() { return 4 * sizes().size() + 17; }
    static std::string name(size_t o)
    {
        const size_t n = sizes().size();
        if (o < 4 * n)
        {
            static const char* f[] = {"a.assign_content", "c.assign_content", "a.resize_content", "a.decode"};
            return f[o / n] + std::string(" ") + std::to_string(sizes()[o % n]);
        }
        static const char* f[] = {"a=b", "b=a", "a=move(b)", "a=C(b)", "a=C(move(b))", "a=c", "c=a", "a=C(c)", "a=self", "a=move(self)", "a.assign_content(own content)",
                                  "a.assign_content(tail of own content)", "a.decode(refused)", "a=view", "a.decode(encode(b))", "swap(a,b)", "a.content()[0]^=1"};
        return f[o - 4 * n];
    }
    bool apply(size_t o)
    {
        const size_t n = sizes().size();
        if (o < 4 * n)
        {
            const Bytes p = pattern(sizes()[o % n]);
            switch (o / n)
            {
            case 0: a.assign_content(exact.put(p)); m[0] = p; known[0] = true; break;
            case 1: e.assign_content(exact.put(p)); m[2] = p; known[2] = true; break;
            case 2:
            {
                if (!known[0])
                    return false;
                const size_t old = m[0].size();
                a.resize_content(p.size());
                m[0].resize(p.size());
                if (a.content_length() == p.size())
                    for (size_t i = old; i < p.size(); i++)
                        m[0][i] = a.content()[i] = static_cast<uint8_t>(i + 1);
                break;
            }
            case 3:
            {
                Bytes w = wrap(p, I{});
                ref::cat(w, {0x02, 0x01, 0xff});
                if (!a.decode(BerView(exact.put(w))).success)
                    run.fail("container-decode", "a valid element is refused");
                m[0]     = p;
                known[0] = true;
                break;
            }
            }
            return true;
        }
        switch (o - 4 * n)
        {
        case 0: a = b; m[0] = m[1]; known[0] = known[1]; break;
        case 1: b = a; m[1] = m[0]; known[1] = known[0]; break;
        case 2: a = std::move(b); m[0] = m[1]; known[0] = known[1]; known[1] = false; break;
        case 3: a = C(b); m[0] = m[1]; known[0] = known[1]; break;
        case 4: a = C(std::move(b)); m[0] = m[1]; known[0] = known[1]; known[1] = false; break;
        case 5: a = e; m[0] = m[2]; known[0] = known[2]; break;
        case 6: e = a; m[2] = m[0]; known[2] = known[0]; break;
        case 7: a = C(e); m[0] = m[2]; known[0] = known[2]; break;
        case 8:
        {
            C& r = a;
            a    = r;
            break;
        }
        case 9:
        {
            C& r     = a;
            a        = std::move(r);
            known[0] = false;
            break;
        }
        case 10:
            if (!known[0])
                return false;
            a.assign_content(a.content());
            break;
        case 11:
            if (!known[0] || m[0].size() < 2)
                return false;
            a.assign_content(a.content().subspan(1));
            m[0].erase(m[0].begin());
            break;
        case 12:
        {
            // nothing of the value is lost by a refusal
            if (!known[0])
                return false;
            for (const Bytes& bad : {Bytes{}, Bytes{0x04, 0x01, 0x00}, Bytes{0x85, 0x01}, wrap(Bytes{1}, Id<Class::private_, 77>{})})
                if (a.decode(BerView(exact.put(bad))).success)
                    run.fail("container-decode", "[" + hex(bad) + "] is accepted");
            known[0] = false;
            break;
        }
        case 13: a = BerView(exact.put(wrap(pattern(9 % (Max + 1)), I{}))); m[0] = pattern(9 % (Max + 1)); known[0] = true; break;
        case 14:
        {
            Bytes w(b.ber().begin(), b.ber().end());
            if (!a.decode(BerView(exact.put(w))).success)
                run.fail("container-decode", "its own encoding is refused");
            m[0]     = m[1];
            known[0] = known[1];
            break;
        }
        case 15:
            std::swap(a, b);
            std::swap(m[0], m[1]);
            std::swap(known[0], known[1]);
            break;
        case 16:
            if (!known[0] || m[0].empty())
                return false;
            a.content()[0] ^= 1;
            m[0][0] ^= 1;
            break;
        }
        return true;
    }
    template <typename T, typename Ident>
    void check1(T& c, Ident, const Bytes& k, bool is_known, const char* which, const std::function<std::string()>& trace)
    {
        run.compared += 5;
        auto        say = [&](const std::string& s) { run.fail("fixed-container", trace() + " : " + which + " " + s); };
        const T&    cc  = c;
        const Bytes got(cc.ber().begin(), cc.ber().end());
        BerView     v(cc.ber());
        if (!v.is_valid() || v.ber_length() != got.size() || !cc.view().is_valid() || cc.view().ber_length() != got.size())
            say("is not one element: [" + hex(got) + "]");
        if (!is_known)
            return;
        const Bytes want = wrap(k, Ident{});
        if (got != want || cc.ber_length() != want.size())
        {
            say("holds [" + hex(got) + "], expected [" + hex(want) + "]");
            return;
        }
        if (Bytes(cc.content().begin(), cc.content().end()) != k || cc.content_length() != k.size() || c.content_data() != c.content().data() ||
            cc.content_data() != cc.ber_data() + (want.size() - k.size()))
            say("content is wrong");
        Bytes out(want.size(), 0xAA);
        auto  r = cc.encode(absl::MakeSpan(out));
        if (!r.success || r.length != want.size() || out != want || cc.encode(exact.fill(want.size() - 1, 0)).success)
            say("encodes to [" + hex(out) + "]");
        T copy(c), moved(std::move(copy));
        if (!(moved == c) || moved != c)
            say("differs from its copy");
        if (!k.empty())
        {
            moved.content()[0] ^= 0x55;
            if (moved == c)
                say("equals another value");
        }
        copy = c;
        if (Bytes(cc.ber().begin(), cc.ber().end()) != want || Bytes(copy.ber().begin(), copy.ber().end()) != want)
            say("changes with its copy");
    }
    void check(const std::function<std::string()>& trace)
    {
        check1(a, I{}, m[0], known[0], "a", trace);
        check1(b, I{}, m[1], known[1], "b", trace);
        check1(e, J{}, m[2], known[2], "c", trace);
    }
    std::string key() const
    {
        std::string s;
        for (int i = 0; i < 3; i++)
            s += (known[i] ? "=" : "?") + hex(m[i]) + std::to_string(m[i].size()) + ";";
        return s;
    }
};

template <typename I, typename J>
void fixed(const std::string& name)
{
    const size_t d = run.thorough ? 4 : 3;
    histories<Fixed<FixedIdBerContainer<I>, FixedIdBerContainer<J>, I, J, 300>>(name, d);
    constexpr size_t m = SmallFixedIdBerContainer<I, 1>::max_possible_content_length, n = SmallFixedIdBerContainer<J, 1>::max_possible_content_length;
    constexpr size_t s = m < n ? m : n;
    // the largest size that can be declared is one more than a single length octet can express
    histories<Fixed<SmallFixedIdBerContainer<I, m == s ? s : s - 1>, SmallFixedIdBerContainer<J, n == s ? s : s - 1>, I, J, s - 1>>(name + " small", d);
    histories<Fixed<SmallFixedIdBerContainer<I, 8>, SmallFixedIdBerContainer<J, 8>, I, J, 8>>(name + " 8 octets", d);
}

int main(int argc, char** argv)
{
    run.init(argc, argv);
    const size_t d = run.thorough ? 4 : 3;
    (void)d;
#if GROUP == 0
    histories<Sys>("BerContainer", d);
#else
    using S  = Id<Class::context_specific, 5>;
    using L  = Id<Class::private_, 2000>;
    using D  = DoubleId<Id<Class::context_specific, 3>, ExplicitId<UniversalTag::octet_string>>;
    using DL = DoubleId<Id<Class::application, 31>, Id<Class::private_, 200>>;
    fixed<S, DL>("[5]");
    fixed<L, S>("[PRIVATE 2000]");
    fixed<D, L>("[3] EXPLICIT");
    fixed<DL, D>("[APPLICATION 31][PRIVATE 200]");
#endif
    return run.finish();
}
