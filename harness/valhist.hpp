// Histories over value types: three objects of one kind, two identifiers, against plain values.
#pragma once
#include "hist.hpp"
#include "subject.hpp"

using namespace fast_ber;
using vf::Bytes;
using vf::hex;

static vf::Exact exact;

template <Class C, Tag T>
Bytes wrap(const Bytes& c, Id<C, T>, bool k = false)
{
    return ref::tlv(static_cast<int>(C), k, static_cast<uint64_t>(T), c);
}
template <typename O, typename I>
Bytes wrap(const Bytes& c, DoubleId<O, I>, bool k = false)
{
    return wrap(wrap(c, I{}, k), O{}, true);
}

template <typename T>
bool enc(const T& t, Bytes& out)
{
    const size_t               n = t.encoded_length();
    std::unique_ptr<uint8_t[]> b(new uint8_t[n]);
    auto                       r = t.encode(absl::Span<uint8_t>(b.get(), n));
    out.assign(b.get(), b.get() + n);
    return r.success && r.length == n;
}
// histories over three objects: two with the same identifier, one with another
template <typename F>
struct Hist
{
    using V = typename F::V;
    typename F::A a, b;
    typename F::B c;
    V             ma = F::initial(), mb = F::initial(), mc = F::initial();

    static size_t      nvals() { return F::values().size(); }
    static size_t      nops() { return 3 * nvals() + 2 * nvals() + F::bad().size() + 9; }
    static std::string name(size_t o)
    {
        const size_t n = nvals();
        if (o < 3 * n)
            return std::string(1, "abc"[o / n]) + " = " + F::show(F::values()[o % n]);
        o -= 3 * n;
        if (o < 2 * n)
            return std::string(1, "ac"[o / n]) + ".decode(" + F::show(F::values()[o % n]) + ")";
        o -= 2 * n;
        if (o < F::bad().size())
            return "a.decode([" + hex(F::bad()[o]) + "] refused)";
        o -= F::bad().size();
        static const char* s[] = {"a = b", "b = a",       "a = c", "c = a", "a = a", "a = T(b)", "a = move(b)", "a.decode(encode(b))",
                                  "a.assign(c)"};
        return s[o];
    }
    template <typename T>
    static bool dec(T& t, const Bytes& b)
    {
        return decode(exact.put(b), t).success;
    }
    bool apply(size_t o)
    {
        const size_t n = nvals();
        if (o < 3 * n)
        {
            V v = F::values()[o % n];
            switch (o / n)
            {
            case 0: a = F::lit(v); ma = v; break;
            case 1: b = F::lit(v); mb = v; break;
            default: c = F::lit(v); mc = v; break;
            }
            return true;
        }
        o -= 3 * n;
        if (o < 2 * n)
        {
            V v = F::values()[o % n];
            if (o / n == 0)
            {
                if (!dec(a, wrap(F::content(v), typename F::A::AsnId{})))
                    run.fail("history-decode", "a valid encoding of " + F::show(v) + " is refused");
                ma = v;
            }
            else
            {
                if (!dec(c, wrap(F::content(v), typename F::B::AsnId{})))
                    run.fail("history-decode", "a valid encoding of " + F::show(v) + " is refused");
                mc = v;
            }
            return true;
        }
        o -= 2 * n;
        if (o < F::bad().size())
        {
            if (dec(a, F::bad()[o]))
                run.fail("history-decode", "[" + hex(F::bad()[o]) + "] is accepted");
            return true;
        }
        o -= F::bad().size();
        switch (o)
        {
        case 0: a = b; ma = mb; break;
        case 1: b = a; mb = ma; break;
        case 2: a = c; ma = mc; break;
        case 3: c = a; mc = ma; break;
        case 4:
        {
            auto& r = a;
            a       = r;
            break;
        }
        case 5: a = typename F::A(b); ma = mb; break;
        case 6: a = std::move(b); ma = mb; break;
        case 7:
        {
            Bytes e;
            enc(b, e);
            if (!dec(a, e))
                run.fail("history-decode", "its own encoding is refused: [" + hex(e) + "]");
            ma = mb;
            break;
        }
        case 8: a.assign(c); ma = mc; break;
        }
        return true;
    }
    template <typename T>
    void check1(const T& t, V m, const char* which, const std::function<std::string()>& trace)
    {
        Bytes       e, want = wrap(F::content(m), typename T::AsnId{});
        const bool  ok = enc(t, e);
        run.compared += 2;
        if (!ok || e != want)
            run.fail("history-encoding", trace() + " : " + which + " encodes to [" + hex(e) + "], expected [" + hex(want) + "]");
        if (F::read(t) != m)
            run.fail("history-value", trace() + " : " + which + " reads " + F::show(F::read(t)) + ", expected " + F::show(m));
    }
    void check(const std::function<std::string()>& trace)
    {
        check1(a, ma, "a", trace);
        check1(b, mb, "b", trace);
        check1(c, mc, "c", trace);
        run.compared += 2;
        if ((a == b) != (ma == mb) || (a != b) == (ma == mb) || (a == c) != (ma == mc))
            run.fail("history-compare", trace() + " : comparison disagrees with the values");
    }
    std::string key() const { return F::show(ma) + "," + F::show(mb) + "," + F::show(mc); }
};

