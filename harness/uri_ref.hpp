// An independent reading of RFC 3986, used as the oracle for cosim::uri.
#ifndef URI_REF_HPP
#define URI_REF_HPP
#include "pbt.hpp"

#include <optional>
#include <string>
#include <vector>

namespace ref
{
using opt = std::optional<std::string>;

struct parts
{
    opt scheme, authority;
    std::string path;
    opt query, fragment;
    bool operator==(const parts& o) const
    {
        return scheme == o.scheme && authority == o.authority && path == o.path && query == o.query && fragment == o.fragment;
    }
};

inline std::string show(const opt& o) { return o ? pbt::quote(*o) : std::string("none"); }
inline std::string show(const parts& p)
{
    return "{scheme " + show(p.scheme) + ", authority " + show(p.authority) + ", path " + pbt::quote(p.path) +
        ", query " + show(p.query) + ", fragment " + show(p.fragment) + "}";
}

/// RFC 3986 section 5.3
inline std::string recompose(const parts& p)
{
    std::string r;
    if (p.scheme) r += *p.scheme + ":";
    if (p.authority) r += "//" + *p.authority;
    r += p.path;
    if (p.query) r += "?" + *p.query;
    if (p.fragment) r += "#" + *p.fragment;
    return r;
}

inline bool alpha(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
inline bool digit(char c) { return c >= '0' && c <= '9'; }
inline bool hex(char c) { return digit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
inline bool in(char c, const char* s)
{
    for (; *s; ++s)
        if (*s == c) return true;
    return false;
}
inline bool unreserved(char c) { return alpha(c) || digit(c) || in(c, "-._~"); }
inline bool sub_delim(char c) { return in(c, "!$&'()*+,;="); }

inline bool valid_chars(const std::string& s, const char* extra)
{
    for (std::size_t i = 0; i < s.size(); ++i) {
        if (s[i] == '%') {
            if (i + 2 >= s.size() || !hex(s[i + 1]) || !hex(s[i + 2])) return false;
            i += 2;
        } else if (!unreserved(s[i]) && !sub_delim(s[i]) && !in(s[i], extra))
            return false;
    }
    return true;
}

/// Whether the parts form a valid URI reference (authority characters only loosely checked).
inline bool valid(const parts& p)
{
    if (p.scheme) {
        if (p.scheme->empty() || !alpha((*p.scheme)[0])) return false;
        for (char c : *p.scheme)
            if (!alpha(c) && !digit(c) && !in(c, "+-.")) return false;
    }
    if (p.authority && !valid_chars(*p.authority, ":@[]")) return false;
    if (!valid_chars(p.path, ":@/")) return false;
    if (p.authority && !p.path.empty() && p.path[0] != '/') return false;
    if (!p.authority && p.path.substr(0, 2) == "//") return false;
    if (!p.scheme && !p.authority) {
        const auto seg = p.path.substr(0, p.path.find('/'));
        if (seg.find(':') != std::string::npos) return false;
    }
    if (p.query && !valid_chars(*p.query, ":@/?")) return false;
    if (p.fragment && !valid_chars(*p.fragment, ":@/?")) return false;
    return true;
}

/// The regular expression of RFC 3986 appendix B, by hand:
/// ^(([^:/?#]+):)?(//([^/?#]*))?([^?#]*)(\?([^#]*))?(#(.*))?
inline parts split(std::string s)
{
    parts p;
    const auto d = s.find_first_of(":/?#");
    if (d != std::string::npos && d > 0 && s[d] == ':') {
        p.scheme = s.substr(0, d);
        s.erase(0, d + 1);
    }
    if (s.compare(0, 2, "//") == 0) {
        const auto e = std::min(s.find_first_of("/?#", 2), s.size());
        p.authority = s.substr(2, e - 2);
        s.erase(0, e);
    }
    const auto e = std::min(s.find_first_of("?#"), s.size());
    p.path = s.substr(0, e);
    s.erase(0, e);
    if (!s.empty() && s[0] == '?') {
        const auto h = std::min(s.find('#'), s.size());
        p.query = s.substr(1, h - 1);
        s.erase(0, h);
    }
    if (!s.empty()) p.fragment = s.substr(1);
    return p;
}

/// RFC 3986 section 5.2.4, on a list of segments rather than on buffers.
/// (With input buffers beginning with "/", as is the case for all absolute
/// paths and for merged ones; a relative path is handled by its own rules.)
inline std::string remove_dots(const std::string& path)
{
    std::string in = path;
    // rules A and D apply only at the very beginning of a relative path
    while (!in.empty() && in[0] != '/') {
        if (in.compare(0, 3, "../") == 0) in.erase(0, 3);
        else if (in.compare(0, 2, "./") == 0) in.erase(0, 2);
        else if (in == "." || in == "..") in.clear();
        else break;
    }
    // split into "(/)segment" pieces
    std::vector<std::string> pieces;
    std::size_t i = 0;
    while (i < in.size()) {
        auto j = in.find('/', i + 1);
        if (j == std::string::npos) j = in.size();
        pieces.push_back(in.substr(i, j - i));
        i = j;
    }
    std::vector<std::string> out;
    for (std::size_t k = 0; k < pieces.size(); ++k) {
        const bool last = k + 1 == pieces.size();
        if (pieces[k] == "/.") {
            if (last) out.push_back("/");
        } else if (pieces[k] == "/..") {
            if (!out.empty()) out.pop_back();
            if (last) out.push_back("/");
        } else
            out.push_back(pieces[k]);
    }
    std::string r;
    for (auto& o : out) r += o;
    return r;
}

/// RFC 3986 section 5.2.2 (strict)
inline parts resolve(const parts& base, const parts& r)
{
    parts t;
    if (r.scheme) {
        t = r;
        t.path = remove_dots(r.path);
    } else {
        if (r.authority) {
            t.authority = r.authority;
            t.path = remove_dots(r.path);
            t.query = r.query;
        } else {
            if (r.path.empty()) {
                t.path = base.path;
                t.query = r.query ? r.query : base.query;
            } else {
                if (r.path[0] == '/') {
                    t.path = remove_dots(r.path);
                } else {
                    std::string m;
                    if (base.authority && base.path.empty())
                        m = "/" + r.path;
                    else {
                        const auto s = base.path.rfind('/');
                        m = (s == std::string::npos ? std::string() : base.path.substr(0, s + 1)) + r.path;
                    }
                    t.path = remove_dots(m);
                }
                t.query = r.query;
            }
            t.authority = base.authority;
        }
        t.scheme = base.scheme;
    }
    t.fragment = r.fragment;
    return t;
}

// --- generators --------------------------------------------------------

inline std::string gen_pct(pbt::test_case& c)
{
    static const char* h = "0123456789abcdefABCDEF";
    return std::string("%") + h[c.draw(21)] + h[c.draw(21)];
}

inline std::string gen_chars(pbt::test_case& c, int max, const char* extra)
{
    std::string s;
    const std::string ex(extra);
    c.repeat(0, max, 2.5, [&](int) {
        switch (c.weighted({8, 2, 2, 1})) {
            case 0: s += static_cast<char>('a' + c.draw(25)); break;
            case 1: s += c.one_of({'-', '.', '_', '~', 'Z', 'A', '0', '9', '1'}); break;
            case 2:
                if (!ex.empty() && c.chance(60)) s += ex[c.draw(ex.size() - 1)];
                else s += c.one_of({'!', '$', '&', '\'', '(', ')', '*', '+', ',', ';', '='});
                break;
            default: s += gen_pct(c);
        }
    });
    return s;
}

inline std::string gen_segment(pbt::test_case& c)
{
    switch (c.weighted({6, 4, 4, 2, 1, 1})) {
        case 0: return gen_chars(c, 6, "@:");
        case 1: return "..";
        case 2: return ".";
        case 3: return "";
        case 4: return "...";
        default: return c.one_of<std::string>({"..a", ".a", "a.", "a.."});
    }
}

inline std::string gen_path(pbt::test_case& c, bool mustBeAbsOrEmpty)
{
    std::string p;
    const int kind = c.weighted({1, 5, mustBeAbsOrEmpty ? 0 : 5});
    if (kind == 0) return p;
    if (kind == 2) p = gen_segment(c);
    c.repeat(kind == 1 ? 1 : 0, 8, 3, [&](int) { p += "/" + gen_segment(c); });
    return p;
}

/// Valid parts, by construction.
inline parts gen_valid(pbt::test_case& c, int schemePercent)
{
    parts p;
    if (c.chance(schemePercent)) {
        std::string s(1, static_cast<char>((c.chance(20) ? 'A' : 'a') + c.draw(25)));
        c.repeat(0, 6, 2, [&](int) { s += c.one_of({'a', 'b', 'z', 'Z', '0', '9', '+', '-', '.'}); });
        p.scheme = s;
    }
    if (c.chance(50)) p.authority = gen_chars(c, 8, ":@[]");
    p.path = gen_path(c, p.authority.has_value());
    if (c.chance(40)) p.query = gen_chars(c, 8, ":@/?");
    if (c.chance(40)) p.fragment = gen_chars(c, 8, ":@/?");
    // repair what the grammar forbids
    if (!p.authority)
        while (p.path.compare(0, 2, "//") == 0) p.path.erase(0, 1);
    if (!p.scheme && !p.authority) {
        const auto e = std::min(p.path.find('/'), p.path.size());
        for (std::size_t i = 0; i < e; ++i)
            if (p.path[i] == ':') p.path[i] = ';';
    }
    return p;
}

} // namespace ref
#endif
