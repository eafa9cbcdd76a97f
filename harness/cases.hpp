// What a translation unit with generated code and value builders needs (see cases_main.cpp).
#pragma once
#include "fast_ber/ber_types/All.hpp"
#include <limits>
#include <memory>
#include <sstream>
#include <string>
#include <type_traits>
#include <vector>

namespace vf
{
template <typename T>
struct Element
{
    using type = T;
};
template <typename T, typename D>
struct Element<fast_ber::Default<T, D>>
{
    using type = T;
};
} // namespace vf
// the type of the values of a DEFAULT component
template <typename T>
using vf_element_t = typename vf::Element<T>::type;

struct GenType
{
    void* (*make)();
    void (*destroy)(void*);
    bool (*decode)(void*, absl::Span<const uint8_t>);
    size_t (*encoded_length)(const void*);
    fast_ber::EncodeResult (*encode)(const void*, absl::Span<uint8_t>);
    void* (*copy)(const void*);
    void (*assign)(void*, const void*);
    void (*move_assign)(void*, void*);
    bool (*equal)(const void*, const void*);
    std::string (*print)(const void*);
};

template <typename T>
const GenType* gen_type()
{
    static const GenType t = {
        []() -> void* { return new T(); },
        [](void* p) { delete static_cast<T*>(p); },
        [](void* p, absl::Span<const uint8_t> in) { return static_cast<T*>(p)->decode(fast_ber::BerView(in)).success; },
        [](const void* p) -> size_t { return static_cast<const T*>(p)->encoded_length(); },
        [](const void* p, absl::Span<uint8_t> b) { return static_cast<const T*>(p)->encode(b); },
        [](const void* p) -> void* { return new T(*static_cast<const T*>(p)); },
        [](void* p, const void* q) { *static_cast<T*>(p) = *static_cast<const T*>(q); },
        [](void* p, void* q) { *static_cast<T*>(p) = std::move(*static_cast<T*>(q)); },
        [](const void* p, const void* q) -> bool { return *static_cast<const T*>(p) == *static_cast<const T*>(q); },
        [](const void* p) {
            std::stringstream ss;
            ss << *static_cast<const T*>(p);
            return ss.str();
        },
    };
    return &t;
}

struct GenRegister
{
    GenRegister(const char* name, const GenType* type, std::vector<void (*)(void*)> builders);
};

// an expression and the text its value has
struct GenExpression
{
    GenExpression(const char* name, std::string (*value)());
};
inline std::string vf_text(bool v) { return v ? "true" : "false"; }
inline std::string vf_text(int64_t v) { return std::to_string(v); }
inline std::string vf_text(absl::string_view v)
{
    std::string s = "\"";
    for (char c : v)
    {
        const char* d = "0123456789abcdef";
        s += d[(c >> 4) & 15];
        s += d[c & 15];
    }
    return s + "\"";
}
inline std::string vf_text(double v)
{
    char b[64];
    snprintf(b, sizeof(b), "%a", v);
    return b;
}
inline std::string vf_text(const fast_ber::ObjectIdentifierComponents& v)
{
    std::string s;
    for (size_t i = 0; i < v.size(); i++)
        s += (i ? "." : "") + std::to_string(v[i]);
    return s;
}
template <typename T, typename = std::enable_if_t<std::is_enum<T>::value>>
std::string vf_text(T v, int = 0)
{
    return "enum " + std::to_string(static_cast<int64_t>(v));
}
template <typename T, typename = std::enable_if_t<std::is_integral<T>::value && !std::is_same<T, bool>::value>>
std::string vf_text(T v, long = 0)
{
    return vf_text(static_cast<int64_t>(v));
}
template <typename I>
std::string vf_text(const fast_ber::ObjectIdentifier<I>& v)
{
    return vf_text(v.value());
}
