// C03: generic views. Every octet string in the bound is viewed; validity, fields, children and re-encoding are compared
// with the reference parse of the same octets.
#include "fast_ber/ber_types/All.hpp"
#include "fast_ber/util/BerContainer.hpp"
#include "ref.hpp"
#include "vf.hpp"

using namespace fast_ber;
using vf::Bytes;
using vf::hex;

static vf::Exact exact, exact_out;

static uint64_t check_view(const BerView& v, const uint8_t* p, size_t n, const Bytes& whole, int depth);

template <typename View>
static void children(View& v, const uint8_t* p, size_t n, const Bytes& whole, int depth, const char* what)
{
    // reference tiling of the content
    size_t off = 0;
    auto   it  = v.begin();
    auto   en  = v.end();
    size_t i   = 0;
    while (true)
    {
        ref::Elem c = ref::parse(p + off, n - off);
        if (c.ok && (!c.tag_in_range || !c.len_in_limit))
            return; // representability limits are judged at the top level
        run.transitions++;
        run.compared++;
        const bool more = it != en;
        if (more != c.ok)
        {
            run.fail("children", "[" + hex(whole) + "] " + what + " child " + std::to_string(i) + " at content offset " +
                                     std::to_string(off) + (more ? " visited" : " not visited"));
            return;
        }
        if (!more)
            return;
        if (depth < 6)
            check_view(*it, p + off, n - off, whole, depth + 1);
        off += c.total();
        i++;
        ++it;
    }
}

// v was assigned from the octets [p, p+n); returns a hash of what it exposes
static uint64_t check_view(const BerView& v, const uint8_t* p, size_t n, const Bytes& whole, int depth)
{
    ref::Elem e = ref::parse(p, n);
    run.compared++;
    run.transitions++;
    auto say = [&](const char* key, const std::string& d) {
        run.fail(key, "[" + hex(whole) + "] element at " + std::to_string(depth) + " deep: " + d);
    };
    if (e.ok && !e.len_in_limit && !v.is_valid())
        return 0; // nine or more length octets: an implementation may refuse
    const bool want = e.ok && e.tag_in_range;
    if (v.is_valid() != want)
    {
        say("validity", std::string("is_valid() is ") + (v.is_valid() ? "true" : "false"));
        return 0;
    }
    if (!want)
    {
        run.compared++;
        if (v.ber_length() != 0 || v.content_length() != 0)
            say("invalid-extent", "an invalid view reports octets");
        return 1;
    }
    if (static_cast<int>(v.class_()) != e.cls && (static_cast<int>(v.class_()) >> 6) != e.cls)
        say("class", "");
    if ((v.construction() == Construction::constructed) != e.constructed)
        say("construction", "");
    if (static_cast<uint64_t>(v.tag()) != e.tag || static_cast<uint64_t>(v.identifier().tag()) != e.tag ||
        v.identifier().class_() != v.class_())
        say("tag", "tag is " + std::to_string(v.tag()) + " expected " + std::to_string(e.tag));
    if (v.identifier_length() != e.id_len)
        say("identifier-length", std::to_string(v.identifier_length()) + " expected " + std::to_string(e.id_len));
    if (v.header_length() != e.hdr || v.content_length() != e.len || v.ber_length() != e.total())
        say("extent", "header " + std::to_string(v.header_length()) + " content " + std::to_string(v.content_length()) +
                          " expected " + std::to_string(e.hdr) + " " + std::to_string(e.len));
    if (v.ber_data() != p || v.content_data() != p + e.hdr || v.ber().data() != p || v.ber().size() != e.total() ||
        v.content().data() != p + e.hdr || v.content().size() != e.len)
        say("octets", "the exposed octets are not the element's");
    run.compared += 6;
    for (size_t b : {size_t(0), e.total() - 1, e.total(), e.total() + 1, e.total() + 20})
    {
        if (b > 4096)
            continue;
        auto         out = exact_out.fill(b, 0xA5);
        EncodeResult r   = v.encode(out);
        run.transitions++;
        run.compared++;
        if (b < e.total() ? r.success : (!r.success || r.length != e.total() || memcmp(out.data(), p, e.total()) != 0))
            say("encode", "buffer " + std::to_string(b));
        for (size_t i = r.success ? r.length : 0; i < b; i++)
            if (out[i] != 0xA5)
            {
                say("encode-overwrite", "buffer " + std::to_string(b));
                break;
            }
    }
    children(v, p + e.hdr, e.len, whole, depth, "view");
    // range-for form
    size_t off = e.hdr, cnt = 0;
    for (const BerView& c : v)
    {
        cnt++;
        if (c.ber_data() != p + off)
        {
            say("range-for", "child " + std::to_string(cnt));
            break;
        }
        off += c.ber_length();
    }
    return vf::hash_bytes(p, e.total());
}

static void one(const Bytes& s)
{
    auto     in = exact.put(s);
    BerView  v(in);
    uint64_t h = check_view(v, in.data(), in.size(), s, 0);
    run.state(h);
    // the same through assignment to a used view, a copy and a mutable view
    static const uint8_t other[] = {0x30, 0x03, 0x02, 0x01, 0x05};
    BerView              u{absl::Span<const uint8_t>(other, 5)};
    u.assign(in);
    BerView w;
    w = u;
    run.transitions += 2;
    run.compared++;
    if (u.is_valid() != v.is_valid() || w.is_valid() != v.is_valid() || u.ber() != v.ber() || w.ber() != v.ber() ||
        (v.is_valid() && (u.tag() != v.tag() || w.tag() != v.tag() || u.header_length() != v.header_length())))
        run.fail("reassigned-view", "[" + hex(s) + "]");
    uint8_t*       mp = exact.get(s.size());
    MutableBerView m(absl::Span<uint8_t>(mp, s.size()));
    if (m.is_valid() != v.is_valid() || (v.is_valid() && m.ber() != v.ber()))
        run.fail("mutable-view", "[" + hex(s) + "]");
    else if (v.is_valid())
    {
        children(m, v.content_data(), v.content_length(), s, 5, "mutable view");
        BerContainer c(v);
        run.transitions++;
        run.compared++;
        if (!c.is_valid() || c.ber() != v.ber() || c.content() != v.content() || c.tag() != v.tag() ||
            c.class_() != v.class_() || c.construction() != v.construction())
            run.fail("container", "[" + hex(s) + "]");
    }
}
static void c(const Bytes& s)
{
    if (run.next())
    {
        run.note(hex(s));
        if (run.idx % 40009 == 7)
            run.sample("[" + hex(s) + "]");
        one(s);
    }
}

static Bytes range(int a, int b)
{
    Bytes r;
    for (int i = a; i <= b; i++)
        r.push_back(static_cast<uint8_t>(i));
    return r;
}

// ---- nested structures -----------------------------------------------------------------------------------------
static std::vector<Bytes> forest(int nodes, int depth, int delta, bool root);
static std::vector<Bytes> trees(int nodes, int depth, int delta)
{
    std::vector<Bytes> out;
    if (nodes == 1)
    {
        out.push_back({0x02, 0x01, 0x05});
        out.push_back({0x05, 0x00});
        out.push_back({0x1f, 0x81, 0x00, 0x81, 0x02, 0x30, 0x01});
        out.push_back({0x00, 0x00});
    }
    if (depth > 0)
        for (const Bytes& f : forest(nodes - 1, depth - 1, delta, false))
            for (Bytes id : {Bytes{0x30}, Bytes{0xbf, 0x1f}})
                for (int d = -delta; d <= delta; d++)
                {
                    long l = static_cast<long>(f.size()) + d;
                    if (l < 0)
                        continue;
                    for (int form = 0; form < 2; form++)
                    {
                        Bytes b = id;
                        if (form == 0)
                            ref::cat(b, ref::length(static_cast<uint64_t>(l)));
                        else
                            ref::cat(b, {0x82, static_cast<uint8_t>(l >> 8), static_cast<uint8_t>(l)});
                        ref::cat(b, f);
                        out.push_back(b);
                    }
                }
    return out;
}
static std::vector<Bytes> forest(int nodes, int depth, int delta, bool)
{
    std::vector<Bytes> out;
    if (nodes == 0)
    {
        out.push_back({});
        return out;
    }
    for (int first = 1; first <= nodes; first++)
        for (const Bytes& a : trees(first, depth, delta))
            for (const Bytes& b : forest(nodes - first, depth, delta, false))
            {
                Bytes x = a;
                ref::cat(x, b);
                out.push_back(x);
            }
    return out;
}

int main(int argc, char** argv)
{
    run.init(argc, argv);
    const Bytes all = vf::all_bytes();
    vf::for_strings(all, 0, run.thorough ? 3 : 2, c);
    // one octet per role: tags, lengths, contents
    const Bytes roles = {0x00, 0x01, 0x02, 0x03, 0x04, 0x05, 0x1e, 0x1f, 0x20, 0x30, 0x3f, 0x5f, 0x7f, 0x80,
                         0x81, 0x82, 0x84, 0x88, 0x89, 0x9f, 0xa0, 0xbf, 0xc0, 0xdf, 0xfe, 0xff};
    vf::for_strings(roles, 3, run.thorough ? 5 : 4, c);
    const Bytes few = {0x00, 0x01, 0x02, 0x04, 0x1f, 0x30, 0x80, 0x81, 0x82, 0xff};
    vf::for_strings(few, run.thorough ? 6 : 5, run.thorough ? 7 : 6, c);

    // long identifiers: every number of octets, boundary patterns
    for (uint8_t first : {0x1f, 0x3f, 0x5f, 0x9f, 0xff})
        for (size_t k = 1; k <= 12; k++)
            for (uint8_t lead : {0x80, 0x81, 0x82, 0xbf, 0xc0, 0xff})
                for (uint8_t mid : {0x80, 0x81, 0xff})
                    for (uint8_t last : {0x00, 0x01, 0x1e, 0x1f, 0x7f, 0x80, 0xff})
                        for (int tail = 0; tail < 4; tail++)
                        {
                            Bytes b = {first};
                            for (size_t i = 0; i + 1 < k; i++)
                                b.push_back(i == 0 ? lead : mid);
                            b.push_back(last);
                            if (tail == 1)
                                b.push_back(0);
                            if (tail == 2)
                                ref::cat(b, {0x01, 0x55});
                            if (tail == 3)
                                ref::cat(b, {0x02, 0x05, 0x00, 0x77});
                            c(b);
                        }
    // length octets: every count, boundary patterns, content present / short / with trailing octets
    for (const Bytes& id : {Bytes{0x04}, Bytes{0x30}, Bytes{0x9f, 0x1f}, Bytes{0x1f, 0x80, 0x05}})
        for (size_t k : {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 16, 126, 127})
            for (size_t given : {size_t(0), k > 0 ? k - 1 : 0, k, k + 1})
            {
                std::set<Bytes> vals;
                for (uint64_t v : {uint64_t(0), uint64_t(1), uint64_t(2), uint64_t(127), uint64_t(128), uint64_t(255),
                                   uint64_t(256), uint64_t(300), uint64_t(0xffff), uint64_t(INT64_MAX), UINT64_MAX,
                                   UINT64_MAX - 1, UINT64_MAX - 8, UINT64_MAX - 9, UINT64_MAX - 10, UINT64_MAX - 11,
                                   UINT64_MAX - 12, UINT64_MAX - 13, uint64_t(1) << 63})
                {
                    Bytes x(given, 0);
                    for (size_t i = 0; i < given && i < 8; i++)
                        x[given - 1 - i] = static_cast<uint8_t>(v >> (8 * i));
                    vals.insert(x);
                }
                vals.insert(Bytes(given, 0xff));
                {
                    Bytes x(given, 0);
                    if (given)
                        x[0] = 1;
                    vals.insert(x);
                }
                for (const Bytes& x : vals)
                    for (size_t content : {0u, 1u, 2u, 127u, 128u, 129u, 255u, 256u, 300u, 301u})
                    {
                        Bytes b = id;
                        b.push_back(static_cast<uint8_t>(0x80 | k));
                        ref::cat(b, x);
                        for (size_t i = 0; i < content; i++)
                            b.push_back(static_cast<uint8_t>(i % 5 == 0 ? 0x05 : 0x00));
                        c(b);
                    }
            }
    for (const Bytes& t : trees(run.thorough ? 5 : 4, 4, 1))
        c(t);
    for (const Bytes& t : trees(3, 3, 3))
        for (const Bytes& trail : {Bytes{0x00}, Bytes{0xff, 0xff}, Bytes{0x05, 0x00}})
        {
            Bytes b = t;
            ref::cat(b, trail);
            c(b);
        }
    return run.finish();
}
