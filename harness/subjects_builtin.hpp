// The built-in types, with single, long and double identifiers. SUBJECT_GROUP (0..3) selects a part.
#pragma once
#include "subject.hpp"

namespace sub
{
using namespace fast_ber;
using namespace fast_ber::abbreviations;
using vf::Bytes;

enum class Colour
{
    red,
    green = 5,
    blue  = 300
};
inline std::ostream& operator<<(std::ostream& os, Colour c) { return os << static_cast<int>(c); }

template <Class C, Tag T>
Bytes wrap(const Bytes& c, Id<C, T>, bool k)
{
    return ref::tlv(static_cast<int>(C), k, static_cast<uint64_t>(T), c);
}
template <typename O, typename I>
Bytes wrap(const Bytes& c, DoubleId<O, I>, bool k)
{
    return wrap(wrap(c, I{}, k), O{}, true);
}
template <typename I>
std::vector<Bytes> wrap_all(const std::vector<Bytes>& cs, bool k = false)
{
    std::vector<Bytes> r;
    for (const auto& c : cs)
        r.push_back(wrap(c, I{}, k));
    return r;
}
inline Bytes str(const std::string& s) { return Bytes(s.begin(), s.end()); }

// primitive type X<Id> under four identifiers
template <template <typename> class X, UniversalTag T>
void prim(std::vector<Subject>& out, const std::string& n, const std::vector<Bytes>& contents)
{
    using U = ExplicitId<T>;
    using S = Id<ctx, 5>;
    using L = Id<pri, 200>;
    using D = DoubleId<Id<ctx, 0>, U>;
    out.push_back(subject<X<U>>(n, wrap_all<U>(contents)));
    out.push_back(subject<X<S>>(n + "[5]", wrap_all<S>(contents)));
    out.push_back(subject<X<L>>(n + "[PRIVATE 200]", wrap_all<L>(contents)));
    out.push_back(subject<X<D>>(n + "[0]EXPLICIT", wrap_all<D>(contents)));
}
template <typename I>
using Enum = Enumerated<Colour, I>;
template <typename I>
using Octets = OctetString<I>;
template <typename I>
using Utf8 = UTF8String<I>;
template <typename I>
using Bits = BitString<I>;
template <typename I>
using Utc = UTCTime<I>;

struct Seven
{
    constexpr static int64_t get_value() noexcept { return 7; }
};
struct Abc
{
    static absl::string_view get_value() noexcept { return "abc"; }
};

using SmallChoice = Choice<Choices<Boolean<>, Integer<Id<ctx, 1>>, OctetString<DoubleId<Id<app, 40>, ExplicitId<UniversalTag::octet_string>>>>>;
using SmallDynChoice =
    Choice<Choices<Boolean<>, Integer<Id<ctx, 1>>, OctetString<>>,
           ChoiceId<ExplicitId<UniversalTag::boolean>, Id<ctx, 1>, ExplicitId<UniversalTag::octet_string>>,
           StorageMode::dynamic>;
// the library's choice has no encode()/decode() of its own
template <typename Base>
struct Wrapped : Base
{
    using Base::Base;
    using Base::operator=;
    std::size_t  encoded_length() const noexcept { return this->encoded_length_old(); }
    EncodeResult encode(absl::Span<uint8_t> o) const noexcept { return this->encode_old(o); }
    DecodeResult decode(BerView i) noexcept { return this->decode_old(i); }
};

inline std::vector<Subject> builtin()
{
    std::vector<Subject> o;
#if SUBJECT_GROUP == 0
    prim<Boolean, UniversalTag::boolean>(o, "BOOLEAN", {{0x00}, {0xff}});
    prim<Integer, UniversalTag::integer>(
        o, "INTEGER", {ref::integer(0), ref::integer(-129), ref::integer(65536), ref::integer(INT64_MIN)});
    prim<Enum, UniversalTag::enumerated>(o, "ENUMERATED", {{0}, {5}, ref::integer(300)});
    prim<Null, UniversalTag::null>(o, "NULL", {{}});
#elif SUBJECT_GROUP == 1
    prim<Octets, UniversalTag::octet_string>(o, "OCTET STRING", {{}, {0x00}, str("abc"), Bytes(100, 0x41), Bytes(130, 0x42)});
    prim<Utf8, UniversalTag::utf8_string>(o, "UTF8String", {{}, str("h\xc3\xa9llo")});
    prim<Bits, UniversalTag::bit_string>(o, "BIT STRING", {{0x00}, {0x04, 0xf0}});
    prim<Utc, UniversalTag::utc_time>(o, "UTCTime", {str("19991231235959Z"), str("991231235959Z")});
#elif SUBJECT_GROUP == 2
    prim<ObjectIdentifier, UniversalTag::object_identifier>(
        o, "OBJECT IDENTIFIER", {{0x2a}, {0x2a, 0x86, 0x48}, {0x88, 0x37, 0x03}, {0x55, 0x04, 0x06}});
    prim<Real, UniversalTag::real>(o, "REAL",
                                   {{}, {0x40}, {0x80, 0x00, 0x01}, {0x80, 0xcb, 0x13, 0, 0, 0, 0, 0, 1},
                                    {0x81, 0xfb, 0xce, 0x10, 0, 0, 0, 0, 0, 0}, {0x03, '1', '.', '5', 'E', '2'}});
    prim<GeneralizedTime, UniversalTag::generalized_time>(
        o, "GeneralizedTime", {str("20240229235959Z"), str("19700101000000+0130"), str("20010203040506")});
#elif SUBJECT_GROUP == 3
    const Bytes i1 = ref::tlv(0, false, 2, {1}), i2 = ref::tlv(0, false, 2, {1, 0}), b1 = ref::tlv(0, false, 1, {0xff});
    Bytes       i12 = i1;
    ref::cat(i12, i2);
    Bytes many;
    for (int k = 0; k < 7; k++)
        ref::cat(many, ref::tlv(0, false, 2, {static_cast<uint8_t>(k)}));
    o.push_back(subject<SequenceOf<Integer<>>>("SEQUENCE OF INTEGER",
                                               wrap_all<ExplicitId<UniversalTag::sequence>>({{}, i1, i12, many}, true)));
    o.push_back(subject<SequenceOf<Integer<>, Id<ctx, 50>, StorageMode::dynamic>>(
        "[50] SEQUENCE OF INTEGER dynamic", wrap_all<Id<ctx, 50>>({{}, i1, i12, many}, true)));
    using D = DoubleId<Id<ctx, 3>, ExplicitId<UniversalTag::sequence>>;
    o.push_back(subject<SequenceOf<Integer<>, D>>("[3] EXPLICIT SEQUENCE OF INTEGER", wrap_all<D>({{}, i1, i12}, true)));
    o.push_back(subject<SetOf<OctetString<>>>(
        "SET OF OCTET STRING",
        wrap_all<ExplicitId<UniversalTag::set>>({{}, ref::tlv(0, false, 4, {}), ref::tlv(0, false, 4, Bytes(120, 7))}, true)));
    using Inner = SequenceOf<Integer<>, DoubleId<Id<ctx, 1>, ExplicitId<UniversalTag::sequence>>>;
    Bytes in    = ref::tlv(2, true, 1, ref::tlv(0, true, 16, i1));
    ref::cat(in, ref::tlv(2, true, 1, ref::tlv(0, true, 16, {})));
    o.push_back(subject<SequenceOf<Inner>>("SEQUENCE OF [1] SEQUENCE OF INTEGER",
                                           wrap_all<ExplicitId<UniversalTag::sequence>>({{}, in}, true)));
    using C1       = Wrapped<SmallChoice>;
    const Bytes cs = ref::tlv(1, true, 40, ref::tlv(0, false, 4, {1, 2})), ci = ref::tlv(2, false, 1, {9});
    o.push_back(subject<C1>("CHOICE", {b1, ci, cs}));
    o.push_back(subject<Wrapped<SmallDynChoice>>("CHOICE dynamic", {b1, ci, ref::tlv(0, false, 4, {1, 2})}));
    o.push_back(subject<Any<>>("ANY", {b1, i1, ref::tlv(0, false, 4, {1, 2}), ref::tlv(0, false, 6, {0x2a, 3}),
                                       ref::tlv(0, false, 5, {}), ref::tlv(0, false, 9, {0x40}),
                                       ref::tlv(0, false, 24, str("20240229235959Z"))}));
    o.push_back(subject<Optional<Integer<>>>("INTEGER OPTIONAL", {{}, i1, i2}, true));
    o.push_back(subject<Optional<OctetString<Id<ctx, 2>>, StorageMode::dynamic>>(
        "[2] OCTET STRING OPTIONAL dynamic", {{}, ref::tlv(2, false, 2, {1, 2, 3})}, true));
    o.push_back(subject<Optional<GeneralizedTime<>>>("GeneralizedTime OPTIONAL",
                                                     {{}, ref::tlv(0, false, 24, str("20240229235959Z"))}, true));
    o.push_back(subject<Default<Integer<>, Seven>>("INTEGER DEFAULT 7", {{}, i1, i2}, true));
    o.push_back(subject<Default<UTF8String<>, Abc>>("UTF8String DEFAULT \"abc\"",
                                                    {{}, ref::tlv(0, false, 12, str("xy"))}, true));
#endif
    return o;
}
} // namespace sub
#ifndef SUBJECTS_DEFINED
std::vector<Subject> subjects() { return sub::builtin(); }
#endif
