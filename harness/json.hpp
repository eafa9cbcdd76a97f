// A strict reader for JSON (RFC 8259) which gives the tokens of a document, and patterns to compare them with.
// Everything is iterative: documents may be nested to any depth.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdlib>
#include <string>
#include <vector>

namespace json
{
struct Token
{
    char        kind; // one of { } [ ] : ,  s(tring) n(umber) l(iteral)
    std::string text; // the characters of a string, a number or a literal
};

// an empty string, or why the text is not a document
inline std::string tokens(const std::string& t, std::vector<Token>& out)
{
    size_t i = 0;
    auto   at = [&](const char* what) { return std::string(what) + " at offset " + std::to_string(i); };
    while (i < t.size())
    {
        const char c = t[i];
        if (c == ' ' || c == '\n' || c == '\r' || c == '\t')
        {
            i++;
            continue;
        }
        if (std::string("{}[]:,").find(c) != std::string::npos)
        {
            out.push_back({c, ""});
            i++;
            continue;
        }
        if (c == '"')
        {
            std::string s;
            for (i++;; i++)
            {
                if (i >= t.size())
                    return at("unterminated string");
                const unsigned char d = static_cast<unsigned char>(t[i]);
                if (d == '"')
                    break;
                if (d < 0x20)
                    return at("control character in a string");
                if (d != '\\')
                {
                    if (d >= 0x80)
                    {
                        // well formed UTF-8
                        int n = d >= 0xF0 && d <= 0xF4 ? 3 : d >= 0xE0 && d < 0xF0 ? 2 : d >= 0xC2 && d < 0xE0 ? 1 : -1;
                        if (n < 0 || i + static_cast<size_t>(n) >= t.size())
                            return at("octet which is not UTF-8");
                        for (int k = 1; k <= n; k++)
                            if ((t[i + static_cast<size_t>(k)] & 0xC0) != 0x80)
                                return at("octet which is not UTF-8");
                        s += t.substr(i, static_cast<size_t>(n) + 1);
                        i += static_cast<size_t>(n);
                        continue;
                    }
                    s += t[i];
                    continue;
                }
                if (++i >= t.size())
                    return at("unterminated string");
                const std::string from = "\"\\/bfnrt", to = "\"\\/\b\f\n\r\t";
                size_t            k    = from.find(t[i]);
                if (k != std::string::npos)
                    s += to[k];
                else if (t[i] == 'u' && i + 4 < t.size() &&
                         t.substr(i + 1, 4).find_first_not_of("0123456789abcdefABCDEF") == std::string::npos)
                {
                    long v = strtol(t.substr(i + 1, 4).c_str(), nullptr, 16);
                    if (v < 0x80)
                        s += static_cast<char>(v);
                    else
                        s += "\\u" + t.substr(i + 1, 4);
                    i += 4;
                }
                else
                    return at("illegal escape");
            }
            i++;
            out.push_back({'s', s});
            continue;
        }
        size_t j = i;
        while (j < t.size() && std::string("{}[]:,\" \n\r\t").find(t[j]) == std::string::npos)
            j++;
        std::string w = t.substr(i, j - i);
        if (w == "true" || w == "false" || w == "null")
            out.push_back({'l', w});
        else
        {
            size_t k = w[0] == '-';
            auto   digits = [&] {
                size_t b = k;
                while (k < w.size() && w[k] >= '0' && w[k] <= '9')
                    k++;
                return k - b;
            };
            size_t b = k, n = digits();
            bool   ok = n && (n == 1 || w[b] != '0');
            if (ok && k < w.size() && w[k] == '.')
            {
                k++;
                ok = digits() > 0;
            }
            if (ok && k < w.size() && (w[k] == 'e' || w[k] == 'E'))
            {
                k++;
                k += k < w.size() && (w[k] == '+' || w[k] == '-');
                ok = digits() > 0;
            }
            if (!ok || k != w.size())
                return at("neither a number, true, false nor null");
            out.push_back({'n', w});
        }
        i = j;
    }
    // the grammar
    std::vector<char> open; // { (after the key: k) or [
    enum
    {
        value,      // a value must follow
        first,      // a value or ] may follow
        key,        // a key must follow
        firstkey,   // a key or } may follow
        colon,
        after       // , or the end of what is open
    } s = value;
    for (size_t n = 0; n < out.size(); n++)
    {
        const char k    = out[n].kind;
        auto       fail = [&] { return "misplaced " + (out[n].text.empty() ? std::string(1, k) : out[n].text) + " (token " + std::to_string(n) + ")"; };
        switch (s)
        {
        case firstkey:
        case key:
            if (k == '}' && s == firstkey)
            {
                open.pop_back();
                s = after;
            }
            else if (k == 's')
                s = colon;
            else
                return fail();
            break;
        case colon:
            if (k != ':')
                return fail();
            s = value;
            break;
        case first:
        case value:
            if (k == ']' && s == first)
            {
                open.pop_back();
                s = after;
            }
            else if (k == '{' || k == '[')
            {
                open.push_back(k);
                s = k == '{' ? firstkey : first;
            }
            else if (k == 's' || k == 'n' || k == 'l')
                s = after;
            else
                return fail();
            break;
        case after:
            if (open.empty())
                return fail();
            if (k == ',')
                s = open.back() == '{' ? key : value;
            else if ((k == '}' && open.back() == '{') || (k == ']' && open.back() == '['))
                open.pop_back();
            else
                return fail();
            break;
        }
    }
    if (s != after || !open.empty())
        return "the document is not complete";
    return "";
}

// Pattern tokens: a punctuation character, a literal, #<number>, "<hex digits of a string>, ?s any string, ?c<text> any
// string with this text in it, ?n a string without any of the names of the universal types, ~<%a> a number close to this,
// ?v any value without brackets, ?a any
// value
inline bool match(const Token& t, const std::string& p)
{
    if (p.size() == 1 && p[0] != '"')
        return t.kind == p[0];
    if (p == "?s")
        return t.kind == 's';
    if (p == "?v")
        return t.kind == 's' || t.kind == 'n' || t.kind == 'l';
    if (p.compare(0, 2, "?c") == 0)
        return t.kind == 's' && t.text.find(p.substr(2)) != std::string::npos;
    if (p[0] == '#')
        return t.kind == 'n' && t.text == p.substr(1);
    if (p[0] == '~')
    {
        double want = strtod(p.c_str() + 1, nullptr);
        if (!std::isfinite(want))
            return t.kind == 's' && t.text.find(std::isnan(want) ? "nan" : want < 0 ? "-inf" : "inf") != std::string::npos;
        if (t.kind != 'n')
            return false;
        double got = strtod(t.text.c_str(), nullptr);
        // at least the six digits which streams print
        return got == want || std::fabs(got - want) <= 1e-5 * std::fabs(want) + 5e-324;
    }
    if (p[0] == '"')
    {
        std::string h;
        for (char c : t.text)
        {
            const char* d = "0123456789abcdef";
            h += d[(c >> 4) & 15];
            h += d[c & 15];
        }
        return t.kind == 's' && h == p.substr(1);
    }
    return t.kind == 'l' && t.text == p;
}

// an empty string, or how the document differs
inline std::string compare(const std::string& text, const std::vector<std::string>& pattern)
{
    std::vector<Token> ts;
    std::string        err = tokens(text, ts);
    if (!err.empty())
        return "not a JSON document: " + err;
    size_t i = 0;
    for (size_t k = 0; i < ts.size() || k < pattern.size(); k++)
    {
        std::string got = i < ts.size() ? (ts[i].text.empty() ? std::string(1, ts[i].kind) : ts[i].text) : "nothing";
        if (i < ts.size() && k < pattern.size() && pattern[k] == "?a" && std::string("sln{[").find(ts[i].kind) != std::string::npos)
        {
            for (size_t depth = 0;; i++)
            {
                depth += ts[i].kind == '{' || ts[i].kind == '[';
                depth -= ts[i].kind == '}' || ts[i].kind == ']';
                if (!depth)
                    break;
            }
            i++;
            continue;
        }
        if (i >= ts.size() || k >= pattern.size() || !match(ts[i], pattern[k]))
            return "token " + std::to_string(i) + " is " + got + ", expected " + (k < pattern.size() ? pattern[k] : "nothing");
        i++;
    }
    return "";
}
} // namespace json
