// C01: identifier and length octets. Enumerates class x construction x tag x content length x buffer size and compares
// every encoder, length predictor and extractor with the X.690 reference.
#include "fast_ber/ber_types/All.hpp"
#include "ref.hpp"
#include "vf.hpp"

using namespace fast_ber;
using vf::Bytes;
using vf::hex;

static vf::Exact exact;

static const Class        classes[] = {Class::universal, Class::application, Class::context_specific, Class::private_};
static const Construction cons[]    = {Construction::primitive, Construction::constructed};

static std::string ctx(int c, int k, int64_t tag, uint64_t len, size_t buf)
{
    std::stringstream ss;
    ss << "class=" << c << " constructed=" << k << " tag=" << tag << " length=" << len << " buffer=" << buf;
    return ss.str();
}

// `size` octets of buffer, `expected` the complete encoding: must be produced iff it fits
static void check_write(const char* what, size_t got, absl::Span<uint8_t> buf, const Bytes& expected,
                        const std::string& c)
{
    run.transitions++;
    run.compared++;
    if (buf.size() >= expected.size())
    {
        if (got != expected.size())
            run.fail(std::string(what) + "-size", c + " returned " + std::to_string(got) + " expected " +
                                                      std::to_string(expected.size()));
        else if (!std::equal(expected.begin(), expected.end(), buf.begin()))
            run.fail(std::string(what) + "-bytes",
                     c + " wrote " + hex(buf.data(), expected.size()) + " expected " + hex(expected));
        else
            for (size_t i = expected.size(); i < buf.size(); i++)
                if (buf[i] != 0xA5)
                {
                    run.fail(std::string(what) + "-overwrite", c + " octet " + std::to_string(i) + " overwritten");
                    break;
                }
    }
    else if (got != 0)
        run.fail(std::string(what) + "-short", c + " returned " + std::to_string(got) + " expected failure");
}

static void header_case(int c, int k, int64_t tag, uint64_t len, bool all_buffers)
{
    const Bytes id = ref::ident(c, k, static_cast<uint64_t>(tag));
    const Bytes ln = ref::length(len);
    Bytes       hd = id;
    ref::cat(hd, ln);

    std::string cx = ctx(c, k, tag, len, 0);
    if (encoded_tag_length(tag) != id.size())
        run.fail("tag-length", cx + " predicted " + std::to_string(encoded_tag_length(tag)));
    if (encoded_identifier_length(cons[k], classes[c], tag) != id.size())
        run.fail("identifier-length", cx);
    if (encoded_length_length(len) != ln.size())
        run.fail("length-length", cx + " predicted " + std::to_string(encoded_length_length(len)));
    if (encoded_header_length(cons[k], classes[c], tag, len) != hd.size())
        run.fail("header-length", cx);
    run.compared += 4;

    for (size_t n = all_buffers ? 0 : hd.size(); n <= hd.size() + (all_buffers ? 2 : 0); n++)
    {
        std::string cb = ctx(c, k, tag, len, n);
        auto        b  = exact.fill(n, 0xA5);
        check_write("encode_header", encode_header(b, cons[k], classes[c], tag, len), b, hd, cb);
        b = exact.fill(n, 0xA5);
        check_write("encode_identifier", encode_identifier(b, cons[k], classes[c], tag), b, id, cb);
        if (n <= 10)
        {
            b = exact.fill(n, 0xA5);
            check_write("encode_length", encode_length(b, len), b, ln, cb);
        }
    }

    // inverse, from a buffer that ends with the header
    auto         in = exact.put(hd);
    Tag          t  = -7;
    Class        cl;
    Construction co;
    size_t       l = 0;
    size_t       r1 = extract_tag(in, t);
    size_t       r3 = extract_length(in, l, r1);
    run.transitions += 4;
    run.compared += 5;
    if (r1 != id.size() || t != tag)
        run.fail("extract_tag", cx + " header " + hex(hd) + " gave tag " + std::to_string(t) + " in " + std::to_string(r1));
    if (extract_tag_length(in) != id.size())
        run.fail("extract_tag_length", cx);
    if (r3 != ln.size() || l != len)
        run.fail("extract_length", cx + " header " + hex(hd) + " gave " + std::to_string(l));
    if (!extract_class(in, cl) || cl != classes[c])
        run.fail("extract_class", cx);
    if (!extract_construction(in, co) || co != cons[k])
        run.fail("extract_construction", cx);
    // every truncation of the header is refused
    for (size_t n = 0; n < hd.size(); n++)
    {
        auto   tr = exact.put(hd.data(), n);
        size_t rt = extract_tag(tr, t);
        run.transitions += 2;
        run.compared++;
        if (n < id.size() ? rt != 0 : rt != id.size())
            run.fail("extract_tag-truncated", cx + " truncated to " + std::to_string(n));
        if (n >= id.size() && extract_length(tr, l, rt) != 0)
            run.fail("extract_length-truncated", cx + " truncated to " + std::to_string(n));
        if (BerView(tr).is_valid())
            run.fail("view-of-truncated-header", cx);
    }
    run.state(vf::hash_bytes(hd));
}

static std::vector<int64_t> tag_values()
{
    std::set<int64_t> s;
    for (int64_t t = 0; t < (run.thorough ? 40000 : 300); t++)
        s.insert(t);
    for (int b = 7; b < 63; b += 7)
        for (int d = -2; d <= 2; d++)
            s.insert((1ll << b) + d);
    for (int d = 0; d <= 2; d++)
        s.insert(INT64_MAX - d);
    for (int b = 0; b < 63; b++)
        s.insert(1ll << b);
    return {s.begin(), s.end()};
}
static std::vector<uint64_t> len_values()
{
    std::set<uint64_t> s;
    for (uint64_t t = 0; t < (run.thorough ? 70000u : 600u); t++)
        s.insert(t);
    for (int b = 8; b < 64; b += 8)
        for (int d = -2; d <= 2; d++)
            s.insert((1ull << b) + static_cast<uint64_t>(d));
    for (unsigned d = 0; d <= 2; d++)
        s.insert(UINT64_MAX - d);
    for (int b = 0; b < 64; b++)
        s.insert(1ull << b);
    return {s.begin(), s.end()};
}

// ---- compile time identifiers ---------------------------------------------------------------------------------
template <Class C, Tag T>
Bytes wrap(const Bytes& content, Id<C, T>, bool k)
{
    return ref::tlv(static_cast<int>(C), k, T, content);
}
template <typename O, typename I>
Bytes wrap(const Bytes& content, DoubleId<O, I>, bool k)
{
    return wrap(wrap(content, I{}, k), O{}, true);
}

template <typename Ident>
void typed(size_t len, const char* name)
{
    Bytes content(len);
    for (size_t i = 0; i < len; i++)
        content[i] = static_cast<uint8_t>(i * 7 + 1);
    for (int k = 0; k < 2; k++)
    {
        if (!run.next())
            continue;
        std::string cx = std::string(name) + " constructed=" + std::to_string(k) + " content=" + std::to_string(len);
        run.note(cx);
        const Bytes  full = wrap(content, Ident{}, k);
        const size_t hdr  = full.size() - len;
        run.compared += 2;
        if (encoded_length(len, Ident{}) != full.size())
            run.fail("encoded_length", cx + " predicted " + std::to_string(encoded_length(len, Ident{})) + " expected " +
                                           std::to_string(full.size()));
        if (encoded_header_length(len, Ident{}) != hdr)
            run.fail("encoded_header_length", cx);
        // encode_header around content that is already in place; room for header+content
        for (int extra = -2; extra <= 2; extra++)
        {
            if (static_cast<long>(full.size()) + extra < 0)
                continue;
            const size_t n = full.size() + static_cast<size_t>(extra);
            auto         b = exact.fill(n, 0xA5);
            for (size_t i = 0; i < len && hdr + i < n; i++)
                b[hdr + i] = content[i];
            EncodeResult r = encode_header(b, len, Ident{}, cons[k]);
            run.transitions++;
            run.compared++;
            if (extra >= 0)
            {
                if (!r.success || r.length != full.size() || !std::equal(full.begin(), full.end(), b.begin()))
                    run.fail("typed-header", cx + " extra=" + std::to_string(extra) + " wrote " + hex(b) +
                                                 " expected " + hex(full));
                for (size_t i = full.size(); i < n; i++)
                    if (b[i] != 0xA5)
                        run.fail("typed-header-overwrite", cx);
            }
        }
        // wrap content that lies at any offset
        for (size_t off = 0; off <= hdr + 3; off++)
            for (int extra = -2; extra <= 2; extra++)
            {
                const long nn = static_cast<long>(full.size()) + extra;
                if (nn < 0 || static_cast<size_t>(nn) < off + len)
                    continue;
                const size_t n = static_cast<size_t>(nn);
                auto         b = exact.fill(n, 0xA5);
                std::copy(content.begin(), content.end(), b.begin() + static_cast<long>(off));
                EncodeResult r = wrap_with_ber_header(b, len, Ident{}, off, cons[k]);
                run.transitions++;
                run.compared++;
                if (extra >= 0)
                {
                    if (!r.success || r.length != full.size() || !std::equal(full.begin(), full.end(), b.begin()))
                        run.fail("wrap", cx + " offset=" + std::to_string(off) + " buffer=" + std::to_string(n) +
                                             " wrote " + hex(b) + " expected " + hex(full));
                }
                else if (r.success)
                    run.fail("wrap-short", cx + " offset=" + std::to_string(off) + " buffer=" + std::to_string(n));
            }
        run.state(vf::hash_bytes(full));
    }
}
template <typename Ident>
void typed_all(const char* name)
{
    std::set<size_t> lens;
    for (size_t i = 0; i <= (run.thorough ? 300u : 20u); i++)
        lens.insert(i);
    for (size_t c : {128u, 256u})
        for (size_t d = 0; d <= 14; d++)
            lens.insert(c - d), lens.insert(c + 1);
    for (size_t c : {65536u})
        for (size_t d = 0; d <= (run.thorough ? 16u : 8u); d++)
            lens.insert(c - d), lens.insert(c + 1);
    if (run.thorough)
        for (size_t c : {(1u << 24)})
            for (size_t d = 0; d <= 2; d++)
                lens.insert(c - d);
    for (size_t l : lens)
        if (l < 300 || run.thorough || std::string(name).find("26") == std::string::npos)
            typed<Ident>(l, name);
}

int main(int argc, char** argv)
{
    run.init(argc, argv);
    const auto tags = tag_values();
    const auto lens = len_values();
    const std::vector<uint64_t> few_len = {0, 1, 127, 128, 255, 256, 65535, 65536, 1ull << 24, 1ull << 32, UINT64_MAX};
    const std::vector<int64_t>  few_tag = {0, 1, 30, 31, 127, 128, 16383, 16384, INT64_MAX};
    for (int c = 0; c < 4; c++)
        for (int k = 0; k < 2; k++)
        {
            for (int64_t t : tags)
                for (uint64_t l : few_len)
                    if (run.next())
                    {
                        run.note(ctx(c, k, t, l, 0));
                        if (t == 16384 && l == 128)
                            run.sample(ctx(c, k, t, l, 0) + " header " + hex(ref::header(c, k, 16384, l)));
                        header_case(c, k, t, l, true);
                    }
            for (uint64_t l : lens)
                for (int64_t t : few_tag)
                    if (run.next())
                    {
                        run.note(ctx(c, k, t, l, 0));
                        header_case(c, k, t, l, l < 300 || l > 70000);
                    }
        }
    for (int c = 0; c < 4; c++)
        if (run.next())
            for (int64_t t : {-1ll, -128ll, -9223372036854775807ll - 1})
                for (size_t n = 0; n < 14; n++)
                {
                    auto b = exact.fill(n, 0xA5);
                    run.transitions += 2;
                    run.compared += 2;
                    if (encode_header(b, Construction::primitive, classes[c], t, 1) != 0 ||
                        encode_identifier(b, Construction::primitive, classes[c], t) != 0)
                        run.fail("negative-tag", ctx(c, 0, t, 1, n));
                }

    constexpr Class U = Class::universal, A = Class::application, X = Class::context_specific, P = Class::private_;
    typed_all<Id<U, 2>>("U2");
    typed_all<Id<A, 30>>("A30");
    typed_all<Id<X, 31>>("X31");
    typed_all<Id<P, 127>>("P127");
    typed_all<Id<X, 128>>("X128");
    typed_all<Id<X, 16384>>("X16384");
    typed_all<Id<A, 2097152>>("A2097152");
    typed_all<Id<P, 268435456>>("P268435456");
    typed_all<Id<X, 72057594037927936>>("X2^56");
    typed_all<DoubleId<Id<X, 0>, Id<U, 2>>>("X0/U2");
    typed_all<DoubleId<Id<X, 31>, Id<U, 16>>>("X31/U16");
    typed_all<DoubleId<Id<A, 200>, Id<P, 20000>>>("A200/P20000");
    typed_all<DoubleId<Id<P, 3>, Id<X, 268435456>>>("P3/X268435456");
    return run.finish();
}
