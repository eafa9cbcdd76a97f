// C12: CHOICE storage: all histories over two choices whose alternatives count their instances.
#include "valhist.hpp"

static std::set<const void*> live;
static void                  lifetime(const std::string& s) { run.fail("lifetime", s); }

struct Counted
{
    Counted() { born(); }
    Counted(const Counted& o)
    {
        o.alive("copied");
        born();
    }
    Counted(Counted&& o) noexcept
    {
        o.alive("moved");
        born();
    }
    Counted& operator=(const Counted& o)
    {
        alive("assigned");
        o.alive("copied");
        return *this;
    }
    Counted& operator=(Counted&& o) noexcept
    {
        alive("assigned");
        o.alive("moved");
        return *this;
    }
    ~Counted()
    {
        if (!live.erase(this))
            lifetime("an alternative is destroyed that does not exist");
    }
    void born()
    {
        if (!live.insert(this).second)
            lifetime("an alternative is constructed over another");
    }
    void alive(const char* what) const
    {
        if (!live.count(this))
            lifetime(std::string("an alternative is ") + what + " that does not exist");
    }
};

// an alternative holding a small number on the heap; [N] INTEGER on the wire
template <int N>
struct Tok : Counted
{
    std::unique_ptr<int> v{new int(0)};
    using AsnId = Id<Class::context_specific, N>;
    Tok()       = default;
    explicit Tok(int x) : v(new int(x)) {}
    Tok(const Tok& o) : Counted(o), v(new int(o.get())) {}
    Tok(Tok&& o) noexcept : Counted(std::move(o)), v(new int(o.get())) { *o.v = -99; }
    Tok& operator=(const Tok& o)
    {
        Counted::operator=(o);
        *v = o.get();
        return *this;
    }
    Tok& operator=(Tok&& o) noexcept
    {
        Counted::operator=(std::move(o));
        const int x = o.get();
        *o.v        = -99;
        *v          = x;
        return *this;
    }
    int get() const
    {
        alive("read");
        return *v;
    }
    size_t       encoded_length() const noexcept { return 3; }
    EncodeResult encode(absl::Span<uint8_t> b) const noexcept
    {
        if (b.size() < 3)
            return {false, 0};
        b[0] = static_cast<uint8_t>(0x80 | N);
        b[1] = 1;
        b[2] = static_cast<uint8_t>(get());
        return {true, 3};
    }
    DecodeResult decode(BerView i) noexcept
    {
        if (!i.is_valid() || i.content_length() != 1 || i.construction() != Construction::primitive)
            return {false};
        *v = static_cast<int8_t>(i.content()[0]);
        return {true};
    }
    bool operator==(const Tok& o) const { return get() == o.get(); }
    bool operator!=(const Tok& o) const { return get() != o.get(); }
    bool operator<(const Tok& o) const { return get() < o.get(); }
    bool operator>(const Tok& o) const { return get() > o.get(); }
    bool operator<=(const Tok& o) const { return get() <= o.get(); }
    bool operator>=(const Tok& o) const { return get() >= o.get(); }
};

// an alternative holding a choice
template <StorageMode S>
struct Tree;

template <StorageMode S>
struct Box : Counted
{
    using AsnId = Id<Class::private_, 40>;
    std::vector<Tree<S>> child;
    Box();
    explicit Box(const Tree<S>& t);
    Box(const Box&);
    Box(Box&&) noexcept;
    Box& operator=(const Box&);
    Box& operator=(Box&&) noexcept;
    ~Box();
    size_t       encoded_length() const noexcept;
    EncodeResult encode(absl::Span<uint8_t> b) const noexcept;
    DecodeResult decode(BerView i) noexcept;
    bool         operator==(const Box& o) const;
    bool         operator!=(const Box& o) const { return !(*this == o); }
    bool         operator<(const Box& o) const;
    bool         operator>(const Box& o) const { return o < *this; }
    bool         operator<=(const Box& o) const { return !(o < *this); }
    bool         operator>=(const Box& o) const { return !(*this < o); }
};

template <StorageMode S>
using Base = Choice<Choices<Tok<0>, Tok<1>, Box<S>>,
                    ChoiceId<Id<Class::context_specific, 0>, Id<Class::context_specific, 1>, Id<Class::private_, 40>>, S>;
template <StorageMode S>
struct Tree : Base<S>
{
    using Base<S>::Base;
    using Base<S>::operator=;
    size_t       encoded_length() const noexcept { return this->encoded_length_old(); }
    EncodeResult encode(absl::Span<uint8_t> o) const noexcept { return this->encode_old(o); }
    DecodeResult decode(BerView i) noexcept { return this->decode_old(i); }
};
template <StorageMode S> Box<S>::Box() = default;
template <StorageMode S> Box<S>::Box(const Tree<S>& t) : child(1, t) {}
template <StorageMode S> Box<S>::Box(const Box&) = default;
template <StorageMode S> Box<S>::Box(Box&&) noexcept = default;
template <StorageMode S> Box<S>& Box<S>::operator=(const Box&) = default;
template <StorageMode S> Box<S>& Box<S>::operator=(Box&&) noexcept = default;
template <StorageMode S> Box<S>::~Box() = default;
template <StorageMode S>
size_t Box<S>::encoded_length() const noexcept
{
    this->alive("measured");
    return 3 + (child.empty() ? 0 : child[0].encoded_length()); // DF 28 len: the content stays below 128
}
template <StorageMode S>
EncodeResult Box<S>::encode(absl::Span<uint8_t> b) const noexcept
{
    this->alive("encoded");
    if (b.size() < 3)
        return {false, 0};
    size_t n = 0;
    if (!child.empty())
    {
        auto r = child[0].encode(b.subspan(3));
        if (!r.success)
            return r;
        n = r.length;
    }
    b[0] = 0xff;
    b[1] = 0x28;
    b[2] = static_cast<uint8_t>(n);
    return {true, n + 3};
}
template <StorageMode S>
DecodeResult Box<S>::decode(BerView i) noexcept
{
    child.clear();
    if (!i.is_valid() || i.construction() != Construction::constructed)
        return {false};
    if (i.content_length() == 0)
        return {true};
    child.emplace_back();
    return child[0].decode(*i.begin());
}
template <StorageMode S>
bool Box<S>::operator==(const Box& o) const
{
    return child.size() == o.child.size() && (child.empty() || child[0] == o.child[0]);
}
template <StorageMode S>
bool Box<S>::operator<(const Box& o) const
{
    if (child.empty() || o.child.empty())
        return child.size() < o.child.size();
    return child[0] < o.child[0];
}

// the value a choice should hold
struct M
{
    int                      idx = 0, v = 0; // idx -1: valid but unspecified
    std::shared_ptr<const M> child;
    bool                     known() const { return idx >= 0 && (!child || child->known()); }
    Bytes                    enc() const
    {
        if (idx < 2)
            return ref::tlv(2, false, static_cast<uint64_t>(idx), {static_cast<uint8_t>(v)});
        return ref::tlv(3, true, 40, child ? child->enc() : Bytes{});
    }
    int compare(const M& o) const
    {
        if (idx != o.idx)
            return idx < o.idx ? -1 : 1;
        if (idx < 2)
            return v < o.v ? -1 : v > o.v;
        if (!child || !o.child)
            return child ? 1 : o.child ? -1 : 0;
        return child->compare(*o.child);
    }
    std::string show() const
    {
        if (idx < 0)
            return "?";
        if (idx < 2)
            return std::to_string(idx) + ":" + std::to_string(v);
        return "{" + (child ? child->show() : "") + "}";
    }
};
static M tok(int i, int v) { return M{i, v, nullptr}; }

template <StorageMode S>
struct Sys
{
    using C = Tree<S>;
    using B = Box<S>;
    struct Baseline
    {
        Baseline()
        {
            if (!live.empty())
                lifetime("alternatives of an earlier history were never destroyed");
            live.clear();
        }
    } baseline;
    C x[2];
    M m[2];

    static constexpr size_t per = 27;
    static size_t           nops() { return 2 * per + 2; }
    static std::string      name(size_t o)
    {
        if (o == 2 * per)
            return "a.swap(b)";
        if (o == 2 * per + 1)
            return "std::swap(a,b)";
        static const char* f[] = {".emplace<0>(1)", ".emplace<1>(2)", ".emplace<Tok<1>>(1)", ".emplace<0>()", "=lvalue Tok<0>(2)", "=lvalue Tok<1>(1)",
                                  "=Tok<1>(2)", "=C(in_place_index<1>, 1)", "=C(in_place_type<Tok<0>>, 1)", "=other", "=C(other)", "=move(other)", "=self",
                                  "=move(self)", "=get<index>(self)", "=move(get<index>(self))", ".emplace<2>()", "=Box(other)", ".emplace<2>(other)",
                                  "=get<2>(self).child", "=move(get<2>(self).child)", "get<2>(other).child=self", ".decode([0] 1)", ".decode([1] 2)",
                                  ".decode({[1] 1})", ".decode(foreign)", ".decode([0] malformed)"};
        return std::string(1, "ab"[o / per]) + f[o % per];
    }
    bool dec(C& c, const Bytes& b) { return decode(exact.put(b), c).success; }
    bool apply(size_t o)
    {
        if (o >= 2 * per)
        {
            if (o == 2 * per)
                x[0].swap(x[1]);
            else
                std::swap(x[0], x[1]);
            std::swap(m[0], m[1]);
            return true;
        }
        C& c = x[o / per];
        C& d = x[1 - o / per];
        M& k = m[o / per];
        M& l = m[1 - o / per];
        const bool known = k.known();
        const M    unknown{-1, 0, nullptr};
        switch (o % per)
        {
        case 0: c.template emplace<0>(1); k = tok(0, 1); break;
        case 1: c.template emplace<1>(2); k = tok(1, 2); break;
        case 2: c.template emplace<Tok<1>>(1); k = tok(1, 1); break;
        case 3: c.template emplace<0>(); k = tok(0, 0); break;
        case 4:
        {
            Tok<0> t(2);
            c = t;
            if (t.get() != 2)
                run.fail("source-changed", "assigning from an lvalue alternative changed it");
            k = tok(0, 2);
            break;
        }
        case 5:
        {
            const Tok<1> t(1);
            c = t;
            if (t.get() != 1)
                run.fail("source-changed", "assigning from an lvalue alternative changed it");
            k = tok(1, 1);
            break;
        }
        case 6: c = Tok<1>(2); k = tok(1, 2); break;
        case 7:
        {
            C e(in_place_index_t<1>{}, 1);
            c = e;
            k = tok(1, 1);
            break;
        }
        case 8:
        {
            C e(in_place_type_t<Tok<0>>{}, 1);
            c = std::move(e);
            k = tok(0, 1);
            break;
        }
        case 9: c = d; k = l; break;
        case 10: c = C(d); k = l; break;
        case 11: c = std::move(d); k = l; l = unknown; break;
        case 12:
        {
            C& r = c;
            c    = r;
            break;
        }
        case 13:
        {
            C& r = c;
            c    = std::move(r);
            k    = unknown;
            break;
        }
        case 14:
        case 15:
        {
            if (!known)
                return false;
            const bool mv = o % per == 15;
            switch (c.index())
            {
            case 0: mv ? (c = std::move(get<0>(c))) : (c = get<0>(c)); break;
            case 1: mv ? (c = std::move(get<1>(c))) : (c = get<1>(c)); break;
            case 2: mv ? (c = std::move(get<2>(c))) : (c = get<2>(c)); break;
            }
            break;
        }
        case 16: c.template emplace<2>(); k = M{2, 0, nullptr}; break;
        case 17:
            if (!l.known())
                return false;
            c = B(d);
            k = M{2, 0, std::make_shared<M>(l)};
            break;
        case 18:
            if (!l.known())
                return false;
            c.template emplace<2>(d);
            k = M{2, 0, std::make_shared<M>(l)};
            break;
        case 19:
        case 20:
        {
            if (!known || k.idx != 2 || !k.child || c.index() != 2)
                return false;
            const M n = *k.child;
            if (o % per == 19)
                c = get<2>(c).child[0];
            else
                c = std::move(get<2>(c).child[0]);
            k = n;
            break;
        }
        case 21:
            if (!known || !l.known() || l.idx != 2 || !l.child || d.index() != 2)
                return false;
            get<2>(d).child[0] = c;
            l                  = M{2, 0, std::make_shared<M>(k)};
            break;
        case 22:
            if (!dec(c, {0x80, 1, 1}))
                run.fail("decode", "[80 01 01] is refused");
            k = tok(0, 1);
            break;
        case 23:
            if (!dec(c, {0x81, 1, 2}))
                run.fail("decode", "[81 01 02] is refused");
            k = tok(1, 2);
            break;
        case 24:
            if (!dec(c, {0xff, 0x28, 3, 0x81, 1, 1}))
                run.fail("decode", "[ff 28 03 81 01 01] is refused");
            k = M{2, 0, std::make_shared<M>(tok(1, 1))};
            break;
        case 25:
            if (dec(c, {0x00, 1, 1}) || dec(c, {0xc0, 1, 1}) || dec(c, {0x82, 1, 1}) || dec(c, {0xbf, 0x28, 0}) || dec(c, {0x80, 2, 1}) || dec(c, {}))
                run.fail("decode", "an identifier of no alternative is accepted");
            k = unknown;
            break;
        case 26:
            if (dec(c, {0x80, 2, 1, 1}))
                run.fail("decode", "an alternative with content it refuses is accepted");
            k = unknown;
            break;
        }
        return true;
    }
    void check1(C& c, const M& k, const char* which, const std::function<std::string()>& trace)
    {
        Bytes e;
        run.compared += 4;
        if (!enc(c, e))
            run.fail("encode", trace() + " : " + which + " does not encode into its own encoded length");
        if (c.index() > 2 || c.valueless_by_exception())
            run.fail("index", trace() + " : " + which + " holds no alternative");
        C     copy(c);
        Bytes f;
        enc(copy, f);
        if (f != e)
            run.fail("copy", trace() + " : a copy of " + which + " encodes to [" + hex(f) + "], it to [" + hex(e) + "]");
        if (!k.known())
            return;
        if (e != k.enc())
            run.fail("value", trace() + " : " + which + " encodes to [" + hex(e) + "], expected [" + hex(k.enc()) + "]");
        const size_t i = static_cast<size_t>(k.idx);
        if (c.index() != i || holds_alternative<Tok<0>>(c) != (i == 0) || holds_alternative<Tok<1>>(c) != (i == 1) ||
            holds_alternative<B>(c) != (i == 2))
            run.fail("index", trace() + " : index() of " + which + " is " + std::to_string(c.index()));
        const C& cc = c;
        if ((get_if<0>(&c) != nullptr) != (i == 0) || (get_if<1>(&cc) != nullptr) != (i == 1) || (get_if<B>(&c) != nullptr) != (i == 2))
            run.fail("get_if", trace() + " : get_if of " + which + " is wrong");
        bool thrown = false;
        try
        {
            int v = 0;
            if (i == 0)
                v = get<1>(c).get();
            else
                v = get<0>(cc).get();
            (void)v;
        }
        catch (const std::exception&)
        {
            thrown = true;
        }
        if (!thrown)
            run.fail("get", trace() + " : get of an alternative " + which + " does not hold succeeds");
        if (i < 2 && (i == 0 ? get<0>(c).get() : get<Tok<1>>(cc).get()) != k.v)
            run.fail("get", trace() + " : get of " + which + " is wrong");
        // the copy is independent
        if (i < 2)
        {
            if (i == 0)
                *get<0>(copy).v = 77;
            else
                *get<Tok<1>>(copy).v = 77;
        }
        else if (k.child)
            get<2>(copy).child[0] = Tok<0>(77);
        enc(c, f);
        if (f != e)
            run.fail("copy", trace() + " : changing a copy of " + which + " changed it");
        // a value moved out is the value
        C n(c);
        C o(std::move(n));
        enc(o, f);
        if (f != e)
            run.fail("move", trace() + " : moved from a copy of " + which + " encodes to [" + hex(f) + "]");
        n = o;
        enc(n, f);
        if (f != e)
            run.fail("move", trace() + " : a moved-from copy of " + which + " does not take a new value");
    }
    void check(const std::function<std::string()>& trace)
    {
        check1(x[0], m[0], "a", trace);
        check1(x[1], m[1], "b", trace);
        if (m[0].known() && m[1].known())
        {
            const int c = m[0].compare(m[1]);
            run.compared += 6;
            if ((x[0] == x[1]) != (c == 0) || (x[0] != x[1]) != (c != 0))
                run.fail("compare", trace() + " : equality disagrees with the values");
            if ((x[0] < x[1]) != (c < 0) || (x[0] > x[1]) != (c > 0) || (x[0] <= x[1]) != (c <= 0) || (x[0] >= x[1]) != (c >= 0))
                run.fail("compare", trace() + " : order disagrees with the values");
            // every alternative alive belongs to one of the two values
            size_t n = 0;
            for (const M* k : {&m[0], &m[1]})
                for (; k; k = k->child.get())
                    n++;
            run.compared++;
            if (live.size() != n)
                run.fail("lifetime", trace() + " : " + std::to_string(live.size()) + " alternatives are alive, " + std::to_string(n) + " are held");
        }
    }
    std::string key() const { return m[0].show() + "," + m[1].show(); }
};

int main(int argc, char** argv)
{
    run.init(argc, argv);
    const size_t d = run.thorough ? 4 : 3;
    histories<Sys<StorageMode::static_>>("static", d);
    histories<Sys<StorageMode::dynamic>>("dynamic", d);
    return run.finish();
}
