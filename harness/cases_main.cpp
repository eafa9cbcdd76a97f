// Executes the cases of a case file on generated types. One case per line:
//   B <subject> <builder> <hex>     the built value encodes to these octets (into a block of exactly that size, larger
//                                   ones, and not into a smaller one) and decoding them gives it back
//   D <subject> <hex> A <hex>|R|U   decoding these octets into a new object gives the value with that encoding, is
//                                   refused, or is only required to be safe
//   H <subject> <hex>;<hex>;...     decoding one after the other into one object: every outcome and value is the one a
//                                   new object gives
//   M <subject> <n> <part> <hex>;<hex>;... all sequences of n decodes of these messages, into a new object and into one
//   with any of
//                                   the built values, as for H
//   X <subject> <n> <hex>           decoding every truncation, every substitution of one octet and, for messages of up
//   to n
//                                   octets, of two octets next to each other by boundary octets, is safe
//   Y <subject> <n> <hex>           decoding every string of up to n of these octets is safe
//   S <subject> <builder>           encoding into every buffer size
//   V <expression> <text>           the value of a C++ expression
//   P <subject> <builder> <pattern> printing the value, and what its encoding is decoded to, gives one well-formed JSON
//                                   document of this form (see json.hpp)
//   C <subject> <builder> <builder> copies and moves are independent values
// Octets are written as hexadecimal digits, none as "-".
#include "cases.hpp"
#include "json.hpp"
#include "vf.hpp"
#include <fstream>

struct Entry
{
    std::string                  name;
    const GenType*               t;
    std::vector<void (*)(void*)> b;
};
static std::map<std::string, Entry>& registry()
{
    static std::map<std::string, Entry> r;
    return r;
}
GenRegister::GenRegister(const char* name, const GenType* type, std::vector<void (*)(void*)> builders)
{
    registry()[name] = Entry{name, type, std::move(builders)};
}

static std::map<std::string, std::string (*)()>& expressions()
{
    static std::map<std::string, std::string (*)()> r;
    return r;
}
GenExpression::GenExpression(const char* name, std::string (*value)()) { expressions()[name] = value; }

using vf::Bytes;
static Bytes unhex(const std::string& s)
{
    Bytes b;
    if (s == "-")
        return b;
    auto d = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; };
    for (size_t i = 0; i + 1 < s.size(); i += 2)
        b.push_back(static_cast<uint8_t>(d(s[i]) << 4 | d(s[i + 1])));
    return b;
}

struct Object
{
    const GenType* t;
    void*          p;
    explicit Object(const Entry& e) : t(e.t), p(e.t->make()) {}
    Object(const GenType* g, void* q) : t(g), p(q) {}
    Object(const Object&)            = delete;
    Object& operator=(const Object&) = delete;
    ~Object() { t->destroy(p); }
    bool decode(const Bytes& w)
    {
        run.transitions++;
        std::unique_ptr<uint8_t[]> b(new uint8_t[w.size()]);
        std::copy(w.begin(), w.end(), b.get());
        return t->decode(p, absl::Span<const uint8_t>(b.get(), w.size()));
    }
    // the encoding, and whether encoding succeeded as predicted
    bool encode(Bytes& out) const
    {
        run.transitions++;
        size_t                     n = t->encoded_length(p);
        std::unique_ptr<uint8_t[]> b(new uint8_t[n]);
        memset(b.get(), 0xA5, n);
        auto r = t->encode(p, absl::Span<uint8_t>(b.get(), n));
        out.assign(b.get(), b.get() + (r.success ? std::min(r.length, n) : 0));
        return r.success && r.length == n;
    }
};

static std::string enc(const Object& o)
{
    Bytes b;
    bool  ok = o.encode(b);
    return ok ? vf::hex(b) : "(cannot be encoded: " + vf::hex(b) + ")";
}

static void compare(const std::string& who, const std::string& what, const std::string& got,
                    const std::string& expected)
{
    run.compared++;
    if (got != expected)
        run.fail("value", who + ": " + what + ": " + got + " instead of " + expected);
}

static void buffers(const Entry& e, const Object& o, const Bytes& expect, bool all)
{
    size_t n = expect.size();
    for (size_t size = all ? 0 : (n ? n - 1 : 0); size <= n + 2; size++)
    {
        // every size is too much for long messages
        if (n > 600 && size == 250)
            size = n - 250;
        for (uint8_t fill : {0x5A, 0xC3})
        {
            std::unique_ptr<uint8_t[]> b(new uint8_t[size]);
            memset(b.get(), fill, size);
            auto r = e.t->encode(o.p, absl::Span<uint8_t>(b.get(), size));
            run.transitions++;
            run.compared++;
            if (size < n)
            {
                if (r.success)
                    run.fail("buffer", e.name + ": encoding " + vf::hex(expect) + " into " + std::to_string(size) +
                                           " octets reports success");
                continue;
            }
            bool ok = r.success && r.length == n && std::equal(expect.begin(), expect.end(), b.get());
            for (size_t i = n; i < size; i++)
                ok = ok && b[i] == fill;
            if (!ok)
                run.fail("buffer", e.name + ": encoding " + vf::hex(expect) + " into " + std::to_string(size) +
                                       " octets gives " + (r.success ? "" : "failure, ") + std::to_string(r.length) +
                                       ": " + vf::hex(b.get(), size));
        }
    }
}

static void build_case(const Entry& e, size_t k, const Bytes& expect)
{
    Object x(e);
    e.b.at(k)(x.p);
    std::string want = vf::hex(expect), who = e.name + " value " + std::to_string(k);
    compare(who, "encoded", enc(x), want);
    compare(who, "encoded_length()", std::to_string(e.t->encoded_length(x.p)), std::to_string(expect.size()));
    buffers(e, x, expect, false);
    Object y(e);
    run.compared++;
    if (!y.decode(expect))
        run.fail("refused", who + ": its encoding " + want + " is refused");
    else
    {
        compare(who, "decoded and encoded again", enc(y), want);
        if (!e.t->equal(x.p, y.p))
            run.fail("value", who + ": decoding its encoding " + want + " gives a value that is not equal");
    }
    Object z(e.t, e.t->copy(x.p));
    compare(who, "copied", enc(z), want);
    run.state(e.name + "/" + want);
}

static void decode_case(const Entry& e, const Bytes& wire, const std::string& verdict, const Bytes& value)
{
    std::string who = e.name + " decoding " + vf::hex(wire);
    bool        ok[2];
    std::string v[2];
    Bytes       more = wire;
    more.insert(more.end(), {0x30, 0x00, 0x02, 0x01, 0x05, 0xA0, 0x80, 0xFF});
    bool complete = fast_ber::BerView(absl::Span<const uint8_t>(wire.data(), wire.size())).is_valid();
    for (int i = 0; i < (complete ? 2 : 1); i++)
    {
        Object x(e);
        ok[i] = x.decode(i ? more : wire);
        v[i]  = enc(x); // whatever came out must be usable
        Object y(e.t, e.t->copy(x.p));
        v[i] += enc(y) == v[i] ? "" : " (its copy: " + enc(y) + ")";
        if (ok[i] && verdict == "A")
        {
            Object z(e);
            run.compared++;
            Bytes again;
            x.encode(again);
            if (!z.decode(again) || enc(z) != v[i])
                run.fail("again", who + ": encoding the result and decoding that gives " + enc(z));
        }
    }
    run.state(e.name + "/" + (ok[0] ? v[0] : "refused"));
    run.compared++;
    if (complete && (ok[0] != ok[1] || (ok[0] && v[0] != v[1])))
        run.fail("context", who + ": the outcome depends on the octets behind the element");
    if (verdict == "A")
    {
        if (!ok[0])
            run.fail("refused", who + ": refused instead of " + vf::hex(value));
        else
            compare(who, "re-encoded", v[0], vf::hex(value));
    }
    else if (verdict == "R" && ok[0])
        run.fail("accepted", who + ": accepted as " + v[0]);
}

static void history_case(const Entry& e, const std::vector<Bytes>& wires)
{
    Object      used(e);
    std::string h = e.name + " decoding";
    for (const Bytes& w : wires)
    {
        Object fresh(e);
        bool   f = fresh.decode(w), u = used.decode(w);
        h += " " + vf::hex(w) + ";";
        run.compared++;
        if (f != u)
            run.fail("history", h + (u ? " accepted" : " refused") + ", but not by a new object");
        else if (f)
        {
            compare(h, "encoded", enc(used), enc(fresh));
            run.state(e.name + "/" + enc(fresh));
        }
        else
            enc(used);
    }
}

struct Outcome
{
    bool        ok;
    std::string value;
};

static void histories_case(const Entry& e, unsigned depth, size_t part, const std::vector<Bytes>& ws)
{
    std::vector<Outcome>                 fresh;
    std::vector<std::unique_ptr<Object>> result;
    for (const Bytes& w : ws)
    {
        result.emplace_back(new Object(e));
        Outcome o;
        o.ok    = result.back()->decode(w);
        o.value = enc(*result.back());
        fresh.push_back(o);
        run.state(e.name + "/" + (o.ok ? o.value : "refused"));
        if (!o.ok)
            continue;
        Bytes b;
        result.back()->encode(b);
        Object z(e);
        run.compared += 2;
        if (!z.decode(b))
            run.fail("again",
                     e.name + " decoding " + vf::hex(w) + ": decoding its re-encoding " + o.value + " is refused");
        else if (enc(z) != o.value || !e.t->equal(z.p, result.back()->p))
            run.fail("again",
                     e.name + " decoding " + vf::hex(w) + ": encoding the result and decoding that gives " + enc(z));
    }
    std::vector<size_t> h(depth);
    // the histories that begin with every eighth message
    for (size_t start = 0; start <= e.b.size(); start++)
    {
        std::fill(h.begin(), h.end(), 0);
        h[0] = part;
        for (bool more = part < ws.size(); more;)
        {
            Object x(e);
            if (start)
                e.b[start - 1](x.p);
            auto who = [&](unsigned n) {
                std::string s = e.name + (start ? " value " + std::to_string(start - 1) : "") + " decoding";
                for (unsigned i = 0; i <= n; i++)
                    s += " " + vf::hex(ws[h[i]]) + ";";
                return s;
            };
            for (unsigned i = 0; i < depth; i++)
            {
                const Outcome& f  = fresh[h[i]];
                bool           ok = x.decode(ws[h[i]]);
                run.compared++;
                if (ok != f.ok)
                    run.fail("history", who(i) + (ok ? " accepted" : " refused") + ", but not by a new object");
                // earlier steps were compared when this step was the last one
                if (i + 1 < depth && !(h[i + 1] == 0 && (i + 2 >= depth || h[i + 2] == 0)))
                    continue;
                std::string v = enc(x);
                run.compared += 2;
                if (ok && f.ok && v != f.value)
                    run.fail("history", who(i) + " encoded: " + v + " instead of " + f.value);
                else if (ok && f.ok && (!e.t->equal(x.p, result[h[i]]->p) || !e.t->equal(result[h[i]]->p, x.p)))
                    run.fail("history", who(i) + " the value is not equal to that of a new object");
            }
            unsigned i = depth;
            for (more = false; i-- > 0 && !more;)
            {
                h[i] += i ? 1 : 8;
                if (h[i] < ws.size())
                    more = true;
                else
                    h[i] = 0;
            }
        }
    }
}

static void safe(const Entry& e, const Bytes& w)
{
    Object x(e);
    bool   ok = x.decode(w);
    enc(x);
    run.stat(ok ? "accepted" : "refused", 1);
    if (!ok)
        return;
    std::string v = enc(x);
    run.state(e.name + "/" + v);
    e.t->print(x.p);
    Object c(e.t, e.t->copy(x.p));
    run.compared++;
    if (enc(c) != v)
        run.fail("value", e.name + " decoding " + vf::hex(w) + ": a copy encodes to " + enc(c) + ", not " + v);
    c.decode(w);
}

static void edits_case(const Entry& e, size_t two, const Bytes& w)
{
    static const uint8_t edge[] = {0x00, 0x01, 0x02, 0x05, 0x1f, 0x20, 0x30, 0x7f, 0x80,
                                   0x81, 0x82, 0x84, 0x88, 0x89, 0xa0, 0xbf, 0xfe, 0xff};
    for (size_t n = 0; n < w.size(); n++)
        safe(e, Bytes(w.begin(), w.begin() + n));
    for (size_t i = 0; i < w.size(); i++)
    {
        Bytes x = w;
        for (int v = 0; v < 256; v++)
        {
            x[i] = static_cast<uint8_t>(v);
            safe(e, x);
        }
        if (w.size() > two || i + 1 == w.size())
            continue;
        for (uint8_t a : edge)
            for (uint8_t b : edge)
            {
                x[i]     = a;
                x[i + 1] = b;
                safe(e, x);
            }
    }
}

static void strings_case(const Entry& e, size_t n, const Bytes& alphabet)
{
    for (size_t len = 0; len <= n; len++)
    {
        std::vector<size_t> k(len);
        for (bool more = true; more;)
        {
            Bytes w;
            for (size_t i : k)
                w.push_back(alphabet[i]);
            safe(e, w);
            more = false;
            for (size_t i = len; i-- > 0 && !more;)
                if (++k[i] < alphabet.size())
                    more = true;
                else
                    k[i] = 0;
        }
    }
}

static void copy_case(const Entry& e, size_t i, size_t j)
{
    Object x(e), y(e);
    e.b.at(i)(x.p);
    e.b.at(j)(y.p);
    std::string who = e.name + " values " + std::to_string(i) + ", " + std::to_string(j);
    std::string ex = enc(x), ey = enc(y);
    Object      c(e.t, e.t->copy(x.p));
    compare(who, "copy", enc(c), ex);
    e.t->assign(x.p, y.p);
    compare(who, "copy after its source was assigned to", enc(c), ex);
    compare(who, "assigned", enc(x), ey);
    e.t->assign(y.p, c.p);
    compare(who, "assigned after its source was assigned to", enc(x), ey);
    compare(who, "assigned copy", enc(y), ex);
    e.t->move_assign(c.p, x.p);
    compare(who, "moved", enc(c), ey);
    e.t->assign(x.p, y.p);
    compare(who, "moved-from object assigned to", enc(x), ex);
    compare(who, "moved after its source was assigned to", enc(c), ey);
    const Object& alias = y;
    e.t->assign(y.p, alias.p);
    compare(who, "assigned to itself", enc(y), ex);
    Bytes b;
    x.encode(b);
    Object d(e.t, e.t->copy(c.p));
    run.compared++;
    if (!c.decode(b))
        run.fail("refused", who + ": " + ex + " is refused");
    compare(who, "copy after its source was decoded into", enc(d), ey);
    run.state(e.name + "/" + ex + "/" + ey);
}

static void print_case(const Entry& e, size_t k, const std::vector<std::string>& pattern)
{
    Object x(e), y(e);
    e.b.at(k)(x.p);
    Bytes b;
    x.encode(b);
    bool ok = y.decode(b);
    for (int i = 0; i < (ok ? 2 : 1); i++)
    {
        std::string text = e.t->print(i ? y.p : x.p);
        std::string err  = json::compare(text, pattern);
        run.transitions++;
        run.compared++;
        run.state(e.name + "/" + text);
        if (!err.empty())
            run.fail("printed", e.name + " value " + std::to_string(k) + (i ? " decoded" : "") + " is printed as " + text + ": " + err);
    }
}

int main(int argc, char** argv)
{
    run.init(argc, argv);
    std::string file;
    for (int i = 1; i + 1 < argc; i++)
        if (std::string(argv[i]) == "--cases")
            file = argv[i + 1];
    std::ifstream in(file);
    std::string   line;
    while (std::getline(in, line))
    {
        if (!run.next())
            continue;
        run.note(line);
        std::stringstream        ss(line);
        std::vector<std::string> f;
        for (std::string w; ss >> w;)
            f.push_back(w);
        if (f[0] == "V")
        {
            auto x = expressions().find(f.at(1));
            run.transitions++;
            std::string text = x == expressions().end() ? "(missing)" : x->second();
            compare(f[1], "value", text, line.substr(f[0].size() + f[1].size() + 2));
            run.state(f[1]);
            run.stat("cases V", 1);
            continue;
        }
        auto it = registry().find(f.at(1));
        if (it == registry().end())
        {
            run.fail("missing", f[1]);
            continue;
        }
        const Entry& e = it->second;
        run.sample(line.substr(0, 200));
        switch (f[0][0])
        {
        case 'B':
            build_case(e, std::stoul(f.at(2)), unhex(f.at(3)));
            break;
        case 'D':
            decode_case(e, unhex(f.at(2)), f.at(3), f.size() > 4 ? unhex(f[4]) : Bytes());
            break;
        case 'H': {
            std::vector<Bytes> w;
            std::stringstream  hs(f.at(2));
            for (std::string x; std::getline(hs, x, ';');)
                w.push_back(unhex(x));
            history_case(e, w);
            break;
        }
        case 'M': {
            std::vector<Bytes> w;
            std::stringstream  hs(f.at(4));
            for (std::string x; std::getline(hs, x, ';');)
                w.push_back(unhex(x));
            histories_case(e, std::stoul(f.at(2)), std::stoul(f.at(3)), w);
            break;
        }
        case 'X':
            edits_case(e, std::stoul(f.at(2)), unhex(f.at(3)));
            break;
        case 'Y':
            strings_case(e, std::stoul(f.at(2)), unhex(f.at(3)));
            break;
        case 'S': {
            Object x(e);
            e.b.at(std::stoul(f.at(2)))(x.p);
            Bytes b;
            run.compared++;
            if (!x.encode(b))
                run.fail("buffer", e.name + " value " + f[2] + ": cannot be encoded");
            buffers(e, x, b, true);
            run.state(line);
            break;
        }
        case 'C':
            copy_case(e, std::stoul(f.at(2)), std::stoul(f.at(3)));
            break;
        case 'P':
            print_case(e, std::stoul(f.at(2)), std::vector<std::string>(f.begin() + 3, f.end()));
            break;
        default:
            run.fail("case", line);
        }
        run.stat(std::string("cases ") + f[0], 1);
    }
    return run.finish();
}
