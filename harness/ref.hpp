// Reference model of BER (ITU-T X.690), written from the standard and independent of fast_ber.
#pragma once
#include <cmath>
#include <cstdint>
#include <limits>
#include <string>
#include <vector>

namespace ref
{
using Bytes = std::vector<uint8_t>;

inline void cat(Bytes& a, const Bytes& b) { a.insert(a.end(), b.begin(), b.end()); }

// 8.1.2: identifier octets
inline Bytes ident(int cls, bool constructed, uint64_t tag)
{
    uint8_t first = static_cast<uint8_t>((cls << 6) | (constructed ? 0x20 : 0));
    if (tag < 31)
        return {static_cast<uint8_t>(first | tag)};
    Bytes groups;
    do
    {
        groups.insert(groups.begin(), static_cast<uint8_t>(tag & 0x7f));
        tag >>= 7;
    } while (tag);
    for (size_t i = 0; i + 1 < groups.size(); i++)
        groups[i] |= 0x80;
    groups.insert(groups.begin(), static_cast<uint8_t>(first | 0x1f));
    return groups;
}
// 8.1.3: definite form, fewest octets
inline Bytes length(uint64_t n)
{
    if (n < 128)
        return {static_cast<uint8_t>(n)};
    Bytes b;
    while (n)
    {
        b.insert(b.begin(), static_cast<uint8_t>(n & 0xff));
        n >>= 8;
    }
    b.insert(b.begin(), static_cast<uint8_t>(0x80 | b.size()));
    return b;
}
inline Bytes header(int cls, bool constructed, uint64_t tag, uint64_t len)
{
    Bytes b = ident(cls, constructed, tag);
    cat(b, length(len));
    return b;
}
inline Bytes tlv(int cls, bool constructed, uint64_t tag, const Bytes& content)
{
    Bytes b = header(cls, constructed, tag, content.size());
    cat(b, content);
    return b;
}

struct Elem
{
    bool     ok          = false;
    int      cls         = 0;
    bool     constructed = false;
    uint64_t tag         = 0;
    size_t   id_len      = 0;
    size_t   hdr         = 0; // identifier and length octets
    size_t   len         = 0; // content octets
    bool     minimal_id  = true;
    bool     minimal_len = true;
    bool     tag_in_range = true; // tag fits in 63 bits
    bool     len_in_limit = true; // length given in at most 8 octets
    size_t   total() const { return hdr + len; }
};

// Parse one definite length element at the start of [p, p+n)
inline Elem parse(const uint8_t* p, size_t n)
{
    Elem e;
    if (n == 0)
        return e;
    e.cls         = p[0] >> 6;
    e.constructed = (p[0] & 0x20) != 0;
    size_t i      = 1;
    if ((p[0] & 0x1f) != 0x1f)
        e.tag = p[0] & 0x1f;
    else
    {
        unsigned __int128 t    = 0;
        bool              done = false, big = false;
        while (i < n)
        {
            uint8_t o = p[i++];
            if (i == 2 && o == 0x80)
                e.minimal_id = false;
            t = (t << 7) | (o & 0x7f);
            if (t > static_cast<unsigned __int128>(INT64_MAX))
            {
                big = true;
                t &= INT64_MAX;
            }
            if (!(o & 0x80))
            {
                done = true;
                break;
            }
        }
        if (!done)
            return e;
        if (big)
        {
            e.tag_in_range = false;
        }
        e.tag = static_cast<uint64_t>(t);
        if (!big && e.tag < 31)
            e.minimal_id = false;
    }
    e.id_len = i;
    if (i >= n)
        return e;
    uint8_t l = p[i++];
    if (l < 0x80)
        e.len = l;
    else
    {
        size_t k = l & 0x7f;
        if (k == 0 || k == 127)
            return e; // indefinite / reserved
        if (k > n - i)
            return e;
        unsigned __int128 v = 0;
        bool              big = false;
        for (size_t j = 0; j < k; j++)
        {
            v = (v << 8) | p[i + j];
            if (v > UINT64_MAX)
            {
                big = true;
                v &= UINT64_MAX;
            }
        }
        if (k > 8)
            e.len_in_limit = false;
        if (big)
            return e;
        i += k;
        if (v < 128 || p[i - k] == 0)
            e.minimal_len = false;
        if (v > n)
            return e;
        e.len = static_cast<size_t>(v);
    }
    e.hdr = i;
    if (e.len > n - i)
        return e;
    e.ok = true;
    return e;
}
inline Elem parse(const Bytes& b) { return parse(b.data(), b.size()); }

// 8.3: two's complement, fewest octets
inline Bytes integer(int64_t v)
{
    Bytes b;
    for (int s = 56; s >= 0; s -= 8)
        b.push_back(static_cast<uint8_t>(static_cast<uint64_t>(v) >> s));
    size_t i = 0;
    while (i + 1 < b.size() && ((b[i] == 0 && b[i + 1] < 0x80) || (b[i] == 0xff && b[i + 1] >= 0x80)))
        i++;
    return Bytes(b.begin() + static_cast<long>(i), b.end());
}
// content 1..8 octets
inline int64_t integer_value(const uint8_t* p, size_t n)
{
    __int128 v = (p[0] & 0x80) ? -1 : 0;
    for (size_t i = 0; i < n; i++)
        v = (v * 256) + p[i];
    return static_cast<int64_t>(v);
}
} // namespace ref
