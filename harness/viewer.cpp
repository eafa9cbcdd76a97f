// C23: the viewer. Every input in the bound is written to a file and given to the viewer's main(); what it prints is read
// with a strict JSON reader and compared with the reference tree of the same octets (harness/ref.hpp).
#include <iostream>
#define main viewer_main
#include VIEWER_SOURCE
#undef main
#include "json.hpp"
#include "ref.hpp"
#include "vf.hpp"

#include "fast_ber/ber_types/All.hpp"

using ref::Bytes;
using vf::hex;

static std::string path;
static int         file = -1;

// ---------------------------------------------------------------------------------------------------------- reference
static const char* const universal[] = {"Reserved", "Boolean", "Integer", "Bit String", "Octet String", "Null", "Object Identifier", "Object Descriptor",
                                        "Instance Of", "Real", "Enumerated", "Embedded PDV", "UTF8 String", "Relative OID", "Unknown", "Unknown",
                                        "Sequence", "Set", "Numeric String", "Printable String", "Teletex String", "Videotex String", "IA5 String",
                                        "UTC Time", "Generalized Time", "Graphic String", "Visible String", "General String", "Universal String",
                                        "Character String", "BMP String"};
static const char* const classes[] = {"Universal", "Application", "Context Specific", "Private"};

static std::string text(const uint8_t* p, size_t n)
{
    for (size_t i = 0; i < n; i++)
        if (p[i] < 0x20 || p[i] > 0x7e)
            return "?s";
    std::string h = "\"";
    for (size_t i = 0; i < n; i++)
    {
        const char* d = "0123456789abcdef";
        h += d[p[i] >> 4];
        h += d[p[i] & 15];
    }
    return h;
}

static std::string number(double v)
{
    char b[64];
    snprintf(b, sizeof(b), "~%a", v);
    return b;
}

static std::string real(const uint8_t* p, size_t n)
{
    if (n == 0)
        return number(0);
    if (p[0] & 0x80)
    {
        // 8.5.7, the forms every reader must understand
        const int base = (p[0] >> 4) & 3, el = (p[0] & 3) + 1;
        if (base == 3 || el == 4 || static_cast<size_t>(el) + 1 >= n || n - 1 - static_cast<size_t>(el) > 7)
            return "?a";
        int64_t e = static_cast<int8_t>(p[1]);
        for (int i = 1; i < el; i++)
            e = e * 256 + p[1 + i];
        uint64_t m = 0;
        for (size_t i = 1 + static_cast<size_t>(el); i < n; i++)
            m = m << 8 | p[i];
        if (m == 0 || e > 3000 || e < -3000)
            return "?a";
        const int bits = base == 0 ? 1 : base == 1 ? 3 : 4;
        double    v    = std::ldexp(static_cast<double>(m), static_cast<int>(e) * bits + ((p[0] >> 2) & 3));
        if (!std::isnormal(v))
            return "?a";
        return number(p[0] & 0x40 ? -v : v);
    }
    if (p[0] & 0x40)
    {
        if (n == 1 && p[0] <= 0x43)
            return number(p[0] == 0x40 ? INFINITY : p[0] == 0x41 ? -INFINITY : p[0] == 0x42 ? NAN : -0.0);
        return "?s";
    }
    return "?a";
}

// content of a primitive element as patterns
static void content(const ref::Elem& e, const uint8_t* p, std::vector<std::string>& out)
{
    const size_t n = e.len;
    if (e.cls == 0)
        switch (e.tag)
        {
        case 1:
            if (n == 1)
                return out.push_back(p[0] ? "true" : "false");
            return out.push_back("?s");
        case 2:
        case 10:
            if (n == 0 || n > 8)
                return out.push_back("?s");
            if (n > 1 && ((p[0] == 0 && p[1] < 0x80) || (p[0] == 0xff && p[1] >= 0x80)))
                return out.push_back("?v"); // not the shortest form
            return out.push_back("#" + std::to_string(ref::integer_value(p, n)));
        case 5:
            return out.push_back(n == 0 ? "null" : "?s");
        case 6: {
            std::vector<std::string> arcs;
            unsigned __int128        v = 0;
            bool                     start = true, bad = n == 0;
            for (size_t i = 0; i < n; i++)
            {
                if (start && p[i] == 0x80)
                    bad = true;
                v     = v << 7 | (p[i] & 0x7f);
                start = !(p[i] & 0x80);
                if (v > static_cast<unsigned __int128>(INT64_MAX))
                    return out.push_back("?a");
                if (!start)
                    continue;
                uint64_t a = static_cast<uint64_t>(v);
                v          = 0;
                if (arcs.empty())
                {
                    uint64_t root = a < 80 ? a / 40 : 2;
                    arcs.push_back("#" + std::to_string(root));
                    a -= root * 40;
                }
                arcs.push_back("#" + std::to_string(a));
            }
            if (bad || !start)
                return out.push_back("?a"); // an implementation may show what it can
            out.push_back("[");
            for (size_t i = 0; i < arcs.size(); i++)
            {
                if (i)
                    out.push_back(",");
                out.push_back(arcs[i]);
            }
            return out.push_back("]");
        }
        case 9:
            return out.push_back(real(p, n));
        case 3:
        case 23:
        case 24:
            return out.push_back("?s");
        }
    out.push_back(text(p, n));
}

// the document for the element at the start of the octets; whole: all descendants can be read
struct Level
{
    const uint8_t* p;
    size_t         n;
    bool           first;
};
static bool document(const uint8_t* p, size_t n, std::vector<std::string>& out, bool& whole, bool& limits)
{
    std::vector<Level> open{{p, n, true}};
    bool               top = true;
    while (true)
    {
        Level&    l = open.back();
        ref::Elem e = ref::parse(l.p, l.n);
        if (!e.ok || (!top && open.size() == 1))
        {
            if (top)
                return false;
            if (open.size() == 1)
                return true;
            whole = whole && l.n == 0;
            out.push_back("]");
            out.push_back("}");
            open.pop_back();
            continue;
        }
        limits = limits && e.tag_in_range && e.len_in_limit;
        if (!l.first)
            out.push_back(",");
        top     = false;
        l.first = false;
        const uint8_t* c = l.p + e.hdr;
        l.p += e.total();
        l.n -= e.total();
        for (const char* t : {"{", "?clength", ":"})
            out.push_back(t);
        out.push_back("#" + std::to_string(e.total()));
        for (const char* t : {",", "?cidentifier", ":", "{", "?cclass", ":"})
            out.push_back(t);
        out.push_back(std::string("?c") + classes[e.cls]);
        for (const char* t : {",", "?ctag", ":"})
            out.push_back(t);
        if (e.cls == 0)
            out.push_back(std::string("?c") + (e.tag < 31 ? universal[e.tag] : "Unknown"));
        else
            out.push_back("#" + std::to_string(e.tag));
        for (const char* t : {"}", ",", "?ccontent", ":"})
            out.push_back(t);
        if (e.constructed)
        {
            out.push_back("[");
            open.push_back({c, e.len, true});
        }
        else
        {
            content(e, c, out);
            out.push_back("}");
        }
    }
}

// ------------------------------------------------------------------------------------------------------------- viewer
static std::string output;
struct Capture : std::streambuf
{
    int_type overflow(int_type c) override
    {
        output += static_cast<char>(c);
        return c;
    }
    std::streamsize xsputn(const char* s, std::streamsize n) override
    {
        output.append(s, static_cast<size_t>(n));
        return n;
    }
} capture;

static std::string brief(const Bytes& b) { return "[" + hex(b.data(), std::min<size_t>(b.size(), 40)) + (b.size() > 40 ? "... " + std::to_string(b.size()) + " octets]" : "]"); }

static void view(const Bytes& b)
{
    if (!run.next())
        return;
    run.note(brief(b));
    if (ftruncate(file, 0) != 0 || pwrite(file, b.data(), b.size(), 0) != static_cast<ssize_t>(b.size()))
        abort();
    output.clear();
    const char* argv[] = {"ber_view", path.c_str(), nullptr};
    int         rc     = viewer_main(2, argv);
    run.transitions++;
    run.compared++;
    std::vector<std::string> want;
    bool                     whole = true, limits = true;
    const bool               ok = document(b.data(), b.size(), want, whole, limits);
    run.state(vf::hash_bytes(output.data(), output.size()) + static_cast<uint64_t>(rc));
    run.sample(brief(b) + " -> " + output.substr(0, 160));
    if (!limits)
    {
        std::vector<json::Token> t;
        std::string              err = json::tokens(output, t);
        if (rc == 0 && !err.empty())
            run.fail("document", brief(b) + " gives " + output.substr(0, 300) + ": not a JSON document: " + err);
        return;
    }
    if (!ok)
    {
        if (rc == 0)
            run.fail("success", brief(b) + " is no element, but the viewer succeeds");
        return;
    }
    if (rc != 0 && whole)
        run.fail("failure", brief(b) + " is an element, but the viewer fails");
    std::string err = json::compare(output, want);
    if (!err.empty())
        run.fail("document", brief(b) + " gives " + output.substr(0, 300) + ": " + err);
}

static Bytes operator+(const Bytes& a, const Bytes& b)
{
    Bytes r = a;
    ref::cat(r, b);
    return r;
}
static Bytes str(const char* s) { return Bytes(s, s + strlen(s)); }

int main(int argc, char** argv)
{
    run.init(argc, argv);
    path = "/dev/shm/vf-viewer-" + std::to_string(getpid());
    file = open(path.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
    if (file < 0)
        return 1;
    std::streambuf* old = std::cout.rdbuf(&capture);
    const bool      T   = run.thorough;

    // 1. all short octet strings
    Bytes all;
    for (int i = 0; i < 256; i++)
        all.push_back(static_cast<uint8_t>(i));
    vf::for_strings(all, 0, 2, view);
    vf::for_strings({0x00, 0x01, 0x02, 0x03, 0x04, 0x05, 0x06, 0x09, 0x0a, 0x0c, 0x17, 0x18, 0x1e, 0x1f, 0x22, 0x24, 0x30, 0x31, 0x3f, 0x40, 0x5c, 0x61, 0x7f,
                     0x80, 0x81, 0x82, 0x88, 0x89, 0x9f, 0xa0, 0xa1, 0xbf, 0xc0, 0xdf, 0xfe, 0xff},
                    3, T ? 4 : 3, view);
    vf::for_strings({0x00, 0x01, 0x02, 0x04, 0x1f, 0x30, 0x81, 0xa0, 0xff}, 4, T ? 7 : 5, view);
    vf::for_strings({0x00, 0x02, 0x04, 0x30}, 6, T ? 10 : 8, view);
    run.stat("short strings", run.idx + 1);

    // 2. every universal type: all short contents, and the contents its type gives a meaning
    for (uint64_t tag = 0; tag < 36; tag++)
    {
        auto prim = [&](const Bytes& c) { view(ref::tlv(0, false, tag, c)); };
        vf::for_strings(all, 0, T ? 2 : 1, prim);
        vf::for_strings({0x00, 0x01, 0x08, 0x0a, 0x0d, 0x1f, 0x20, 0x22, 0x27, 0x2f, 0x3c, 0x41, 0x5c, 0x75, 0x7e, 0x7f, 0x80, 0x81, 0xc3, 0xa9, 0xe2, 0xff}, 2,
                        T ? 3 : 2, prim);
        vf::for_strings({0x00, 0x22, 0x41, 0x5c, 0x7f, 0x80, 0xff}, T ? 4 : 3, T ? 5 : 4, prim);
        for (size_t n : {5, 7, 8, 9, 10, 11, 22, 23, 24, 126, 127, 128, 200, 255, 256, 1000, 65535, 65536})
            for (uint8_t o : {0x00, 0x22, 0x41, 0x5c, 0x7f, 0x80, 0xff})
                prim(Bytes(n, o));
    }
    // object identifiers, integers, reals
    for (uint64_t tag : {2, 6, 10})
        vf::for_strings({0x00, 0x01, 0x27, 0x28, 0x4f, 0x50, 0x7f, 0x80, 0x81, 0xff}, 3, T ? 5 : 4, [&](const Bytes& c) { view(ref::tlv(0, false, tag, c)); });
    for (uint64_t tag : {2, 6, 10})
        vf::for_strings({0x00, 0x7f, 0x80, 0xff}, 5, T ? 9 : 6, [&](const Bytes& c) { view(ref::tlv(0, false, tag, c)); });
    for (uint64_t tag : {2, 10})
        vf::for_strings({0x00, 0x7f, 0x80, 0xff}, 7, 8, [&](const Bytes& c) {
            if (T || (c[2] == c[3] && c[3] == c[4]))
                view(ref::tlv(0, false, tag, c));
        });
    for (uint8_t info : {0x80, 0x81, 0x82, 0x83, 0x84, 0x88, 0x8c, 0x90, 0xa0, 0xac, 0xb0, 0xc0, 0xc1, 0xd0, 0xe0, 0xef})
        vf::for_strings({0x00, 0x01, 0x02, 0x03, 0x34, 0x7f, 0x80, 0xfe, 0xff}, 2, T ? 5 : 4, [&](const Bytes& c) { view(ref::tlv(0, false, 9, Bytes{info} + c)); });
    for (const char* s : {"1", "-1", "+1", "0", "007", "1.5", "-1.5", "1,5", ".5", "5.", "1.5E3", "1.E+3", "-25.E-1", "1E5", "9.E999", "1.E-999", "nan", "inf", "0x10", " 1", "1 ", "1e5", ""})
        for (uint8_t form : {0x01, 0x02, 0x03, 0x04, 0x00, 0x3f})
            view(ref::tlv(0, false, 9, Bytes{form} + str(s)));
    // times: legal ones and their edits
    for (uint64_t tag : {23, 24, 31, 32, 33, 34})
        for (const char* s : {"20200229235959Z", "19700101000000", "20200101000000.123Z", "20200101000000,5+0130", "2020010100", "202001010000Z", "910506234540Z", "9105062345-0700",
                              "99991231235960Z", "00000000000000Z", "2020-01-01T00:00:00", "P1Y2M"})
        {
            const Bytes t = str(s);
            for (size_t i = 0; i <= t.size(); i++)
                for (int o : std::initializer_list<int>{-1, '0', '9', 'Z', '.', '-', '+', '"', '\\', ' ', 0, 0x80, 0xff})
                {
                    Bytes x = t;
                    if (o >= 0)
                        x.insert(x.begin() + static_cast<long>(i), static_cast<uint8_t>(o));
                    else if (i < t.size())
                        x.erase(x.begin() + static_cast<long>(i));
                    view(ref::tlv(0, false, tag, x));
                    if (o < 0 || i == t.size())
                        continue;
                    x    = t;
                    x[i] = static_cast<uint8_t>(o);
                    view(ref::tlv(0, false, tag, x));
                }
        }
    run.stat("contents", run.idx + 1);

    // 3. identifiers of every class and size, primitive and constructed
    for (int cls = 0; cls < 4; cls++)
        for (int cons = 0; cons < 2; cons++)
            for (int shift = 0; shift < 63; shift++)
                for (int d : {-1, 0, 1})
                {
                    uint64_t tag = (1ull << shift) + static_cast<uint64_t>(d);
                    for (const Bytes& c : {Bytes{}, ref::tlv(2, false, 1, {0x41}), Bytes{0x05, 0x00}, Bytes{0x02, 0x01, 0x80}})
                        view(ref::tlv(cls, cons, tag, c));
                }
    // lengths in other forms
    for (uint8_t id : {0x04, 0x30, 0xa0, 0xdf})
        for (size_t n : {0, 1, 2, 3, 100})
            for (size_t k = 1; k <= 9; k++)
            {
                Bytes b{id};
                if (id == 0xdf)
                    b.push_back(0x55);
                b.push_back(static_cast<uint8_t>(0x80 | k));
                for (size_t i = 1; i < k; i++)
                    b.push_back(0);
                b.push_back(static_cast<uint8_t>(n));
                for (size_t i = 0; i < n; i++)
                    b.push_back(i % 2 ? 0x00 : 0x05);
                view(b);
                b.push_back(0x05);
                view(b);
            }
    run.stat("identifiers and lengths", run.idx + 1);

    // 4. all trees: a constructed element has up to three children from the trees one level less deep
    std::vector<Bytes> leaves = {{0x05, 0x00}, ref::tlv(0, false, 2, {0x80}), ref::tlv(0, false, 12, str("a\"\\")), ref::tlv(2, false, 31, {}), ref::tlv(0, false, 9, {0x42}),
                                 ref::tlv(0, false, 6, {0x2a, 0x86, 0x48}), {0x30, 0x00}};
    std::vector<Bytes> bad    = {{0x02}, {0x30, 0x80, 0x00, 0x00}, {0x04, 0x05, 0x41}, {0x1f, 0x80}};
    std::vector<Bytes> trees  = leaves;
    for (int depth = 1; depth <= 3; depth++)
    {
        std::vector<Bytes> next;
        for (const Bytes& a : trees)
            next.push_back(a);
        const size_t w = depth == 1 ? trees.size() : std::min<size_t>(trees.size(), T ? 60 : 26);
        for (size_t i = 0; i < w; i++)
            for (size_t j = 0; j < w; j++)
                next.push_back(trees[trees.size() - 1 - i * (trees.size() / w)] + trees[trees.size() - 1 - j * (trees.size() / w)]);
        if (depth == 1 || T)
            for (size_t i = 0; i < std::min<size_t>(w, 14); i++)
                for (size_t j = 0; j < std::min<size_t>(w, 14); j++)
                    for (size_t k = 0; k < std::min<size_t>(w, 14); k++)
                        next.push_back(trees[i] + trees[j] + trees[k]);
        trees.clear();
        for (const Bytes& c : next)
        {
            for (int cls : {0, 2})
            {
                trees.push_back(ref::tlv(cls, true, cls ? 40 : 16, c));
                view(trees.back());
            }
            // descendants that cannot be read, and octets behind the element
            for (const Bytes& x : bad)
            {
                view(ref::tlv(0, true, 17, c + x));
                view(ref::tlv(0, true, 17, x + c));
                view(trees.back() + x);
            }
        }
    }
    run.stat("trees", run.idx + 1);

    // 5. deep, wide and large elements
    for (size_t depth : {10, 100, 1000, 10000, 100000, 300000})
        for (int inner = 0; inner < 3; inner++)
            for (int rest = 0; rest < 2; rest++)
            {
                // headers from the innermost to the outermost element, in reverse
                Bytes r, c = inner == 0 ? Bytes{} : inner == 1 ? Bytes{0x02, 0x01, 0x05} : Bytes{0x30, 0x80};
                r.assign(c.rbegin(), c.rend());
                for (size_t i = 0; i < depth; i++)
                {
                    if (rest)
                        r.insert(r.end(), {0x00, 0x05}); // NULL is behind the element
                    Bytes h = ref::header(i % 3 ? 0 : 2, true, i % 3 ? 16 : 3, r.size());
                    if (rest)
                    {
                        r.resize(r.size() - 2);
                        std::reverse(r.begin(), r.end());
                        r.insert(r.end(), {0x05, 0x00});
                        std::reverse(r.begin(), r.end());
                        if (depth > 1000)
                            break;
                    }
                    r.insert(r.end(), h.rbegin(), h.rend());
                }
                if (rest && depth > 1000)
                    continue;
                view(Bytes(r.rbegin(), r.rend()));
            }
    for (size_t n : {100, 1000, 100000})
        for (const Bytes& x : leaves)
        {
            Bytes c;
            for (size_t i = 0; i < n; i++)
                ref::cat(c, x);
            view(ref::tlv(0, true, 16, c));
        }
    view(ref::tlv(0, false, 4, Bytes(T ? 20000000 : 3000000, 0x5c)));
    run.stat("inputs", run.idx + 1);

    std::cout.rdbuf(old);
    unlink(path.c_str());
    return run.finish();
}
