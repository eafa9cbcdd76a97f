// A type-erased decodable/encodable object, so that one explorer serves every built-in and generated type.
#pragma once
#include "fast_ber/ber_types/All.hpp"
#include "ref.hpp"
#include "vf.hpp"
#include <sstream>

struct Obj
{
    virtual ~Obj()                                              = default;
    virtual bool                   decode(absl::Span<const uint8_t>) = 0;
    virtual size_t                 encoded_length() const            = 0;
    virtual fast_ber::EncodeResult encode(absl::Span<uint8_t>) const = 0;
    virtual std::string            print() const                     = 0;
    virtual std::unique_ptr<Obj>   clone() const                     = 0; // copy construction
    virtual std::unique_ptr<Obj>   move()                            = 0; // move construction
    virtual void                   assign(const Obj&)                = 0; // copy assignment
    virtual void                   move_assign(Obj&)                 = 0;
    virtual bool                   equals(const Obj&) const          = 0;
};

template <typename T>
struct ObjT : Obj
{
    T t;
    ObjT() = default;
    explicit ObjT(const T& o) : t(o) {}
    explicit ObjT(T&& o) : t(std::move(o)) {}
    bool   decode(absl::Span<const uint8_t> in) override { return fast_ber::decode(in, t).success; }
    size_t encoded_length() const override { return t.encoded_length(); }
    fast_ber::EncodeResult encode(absl::Span<uint8_t> b) const override { return t.encode(b); }
    std::string            print() const override
    {
        std::stringstream ss;
        ss << t;
        return ss.str();
    }
    std::unique_ptr<Obj> clone() const override { return std::unique_ptr<Obj>(new ObjT(t)); }
    std::unique_ptr<Obj> move() override { return std::unique_ptr<Obj>(new ObjT(std::move(t))); }
    void                 assign(const Obj& o) override { t = static_cast<const ObjT&>(o).t; }
    void                 move_assign(Obj& o) override { t = std::move(static_cast<ObjT&>(o).t); }
    bool                 equals(const Obj& o) const override { return t == static_cast<const ObjT&>(o).t; }
};

struct Subject
{
    std::string                           name;
    std::function<std::unique_ptr<Obj>()> make;
    std::vector<vf::Bytes>                seeds; // valid encodings
    bool                                  absent_ok = false; // an invalid view means "absent" and is accepted
};

template <typename T>
Subject subject(const std::string& name, std::vector<vf::Bytes> seeds, bool absent_ok = false)
{
    Subject s;
    s.name      = name;
    s.make      = [] { return std::unique_ptr<Obj>(new ObjT<T>()); };
    s.seeds     = std::move(seeds);
    s.absent_ok = absent_ok;
    return s;
}

// provided by the subject set in use
std::vector<Subject> subjects();

// encode into an exactly sized buffer
inline bool encode_exact(const Obj& o, vf::Bytes& out)
{
    size_t                     n = o.encoded_length();
    std::unique_ptr<uint8_t[]> b(new uint8_t[n]);
    memset(b.get(), 0xA5, n);
    auto r = o.encode(absl::Span<uint8_t>(b.get(), n));
    out.assign(b.get(), b.get() + (r.success ? std::min(r.length, n) : 0));
    return r.success && r.length == n;
}
