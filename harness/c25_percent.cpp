// C25: percent-encoding and file paths round-trip through URIs.
#include "uri_common.hpp"

#include <cosim/fs_portability.hpp>

#include <stdexcept>

using namespace ref;

namespace
{

std::string gen_bytes(pbt::test_case& c, int max)
{
    std::string s;
    c.repeat(0, max, 6, [&](int) {
        switch (c.weighted({4, 3, 2})) {
            case 0: s += static_cast<char>('a' + c.draw(25)); break;
            case 1: s += c.one_of({'%', '/', ' ', '#', '?', ':', '@', '+', '&', '=', ';', '~', '.', '-', '_', '0', 'F', 'f'}); break;
            default: s += static_cast<char>(c.draw(255));
        }
    });
    return s;
}

std::string encode_ref(const std::string& s, const std::string& except)
{
    static const char* h = "0123456789ABCDEF";
    std::string r;
    for (unsigned char u : s) {
        const char ch = static_cast<char>(u);
        if (unreserved(ch) || (ch != 0 && except.find(ch) != std::string::npos)) r += ch;
        else {
            r += '%';
            r += h[u >> 4];
            r += h[u & 15];
        }
    }
    return r;
}

std::string upper_escapes(std::string s)
{
    for (std::size_t i = 0; i + 2 < s.size(); ++i)
        if (s[i] == '%') {
            s[i + 1] = static_cast<char>(std::toupper(s[i + 1]));
            s[i + 2] = static_cast<char>(std::toupper(s[i + 2]));
            i += 2;
        }
    return s;
}

/// An exactly sized heap copy, so that reading beyond the end is seen by ASan.
struct exact
{
    explicit exact(const std::string& s)
        : p(new char[s.size()])
        , n(s.size())
    {
        std::memcpy(p, s.data(), n);
    }
    ~exact() { delete[] p; }
    exact(const exact&) = delete;
    std::string_view view() const { return {p, n}; }
    char* p;
    std::size_t n;
};

void encode(pbt::test_case& c)
{
    const auto s = gen_bytes(c, c.sized(3, 40));
    std::string except;
    bool null = c.chance(30);
    if (!null) c.repeat(0, 8, 2, [&](int) { except += c.one_of({'/', '+', ':', '@', '=', '&', ';', ' ', '\x7f', '\xe5', '!', '*'}); });
    c.note("encode " + pbt::quote(s) + " except " + pbt::quote(except));
    const exact e(s);
    const auto r = cosim::percent_encode(e.view(), null ? nullptr : except.c_str());
    PBT_REQUIRE("encode", upper_escapes(r) == encode_ref(s, null ? "" : except), pbt::quote(s), " except ", pbt::quote(except), " encoded as ", pbt::quote(r));
    const exact re(r);
    const auto d = cosim::percent_decode(re.view());
    PBT_REQUIRE("round-trip", d == s, pbt::quote(s), " encoded as ", pbt::quote(r), " decoded as ", pbt::quote(d));
    c.label("encode/decode");
    if (r != s) c.nontrivial();
}

void decode(pbt::test_case& c)
{
    // literal characters, well-formed triplets, truncated and malformed escapes
    std::string s, expected;
    bool malformed = false;
    c.repeat(0, 12, 4, [&](int) {
        switch (c.weighted({6, 5, 2, 1})) {
            case 0: {
                const char ch = c.one_of({'a', 'b', '0', 'F', ' ', '+', '/', '\0', '\xff', 'g'});
                s += ch;
                break;
            }
            case 1: s += gen_pct(c); break;
            case 2: s += '%'; break;
            default: s += "%" + std::string(1, c.one_of({'g', ' ', '%', '/', 'G', '0', '@', '`'})) + std::string(1, c.one_of({'0', 'g', ':', 'F'}));
        }
    });
    auto hexval = [](char ch) { return digit(ch) ? ch - '0' : (ch | 32) - 'a' + 10; };
    for (std::size_t i = 0; i < s.size();) {
        if (s[i] == '%' && i + 2 < s.size()) {
            if (hex(s[i + 1]) && hex(s[i + 2])) {
                expected += static_cast<char>(hexval(s[i + 1]) * 16 + hexval(s[i + 2]));
                i += 3;
                continue;
            }
            malformed = true;
            break;
        }
        expected += s[i++]; // a truncated escape at the end stands for itself
    }
    c.note("decode " + pbt::quote(s));
    const exact e(s);
    try {
        const auto d = cosim::percent_decode(e.view());
        PBT_REQUIRE("malformed-accepted", !malformed, pbt::quote(s), " decoded as ", pbt::quote(d));
        PBT_REQUIRE("decode", d == expected, pbt::quote(s), " decoded as ", pbt::quote(d), " and not ", pbt::quote(expected));
    } catch (const std::domain_error& ex) {
        PBT_REQUIRE("well-formed-rejected", malformed, pbt::quote(s), ": ", ex.what());
        c.label("malformed escape");
    }
    c.label("decode arbitrary");
    if (s.find('%') != std::string::npos) c.nontrivial();
    if (s.size() >= 2 && (s[s.size() - 1] == '%' || s[s.size() - 2] == '%')) c.label("truncated escape");
    if (s.size() < 3) c.label("shorter than 3");
}

void encode_uri(pbt::test_case& c)
{
    opt scheme, authority, query, fragment;
    if (c.chance(60)) {
        std::string s(1, static_cast<char>('a' + c.draw(25)));
        c.repeat(0, 5, 2, [&](int) { s += c.one_of({'a', 'z', '0', '+', '-', '.'}); });
        scheme = s;
    }
    if (c.chance(50)) authority = gen_bytes(c, 10);
    std::string path = gen_bytes(c, 14);
    if (authority && !path.empty()) path = "/" + path;
    if (!authority)
        while (path.compare(0, 2, "//") == 0) path.erase(0, 1);
    if (c.chance(50)) query = gen_bytes(c, 12);
    if (c.chance(50)) fragment = gen_bytes(c, 12);
    parts p;
    p.scheme = scheme;
    if (authority) p.authority = encode_ref(*authority, "@:+");
    p.path = encode_ref(path, "/+");
    if (query) p.query = encode_ref(*query, "=&;/:+");
    if (fragment) p.fragment = encode_ref(*fragment, "");
    c.note("percent_encode_uri " + show(parts{scheme, authority, path, query, fragment}));
    const auto u = cosim::percent_encode_uri(to_view(scheme), to_view(authority), path, to_view(query), to_view(fragment));
    PBT_REQUIRE("encode-uri", upper_escapes(std::string(u.view())) == recompose(p), "got ", pbt::quote(u.view()), ", expected ", pbt::quote(recompose(p)));
    // the components survive
    const cosim::uri v(std::string(u.view()));
    auto dec = [](const opt& o) -> opt {
        if (!o) return std::nullopt;
        return cosim::percent_decode(*o);
    };
    const auto q = parts_of(v);
    const parts back{dec(q.scheme), dec(q.authority), cosim::percent_decode(q.path), dec(q.query), dec(q.fragment)};
    const parts orig{scheme, authority, path, query, fragment};
    PBT_REQUIRE("encode-uri-round-trip", back == orig, show(orig), " became ", show(back), " via ", pbt::quote(u.view()));
    c.label("percent_encode_uri");
    c.nontrivial();
}

void file_paths(pbt::test_case& c)
{
    std::string path;
    if (!c.chance(4)) {
        c.repeat(1, 6, 2.5, [&](int) {
            path += "/";
            path += c.chance(50) ? gen_bytes(c, 8) : c.one_of<std::string>({"", ".", "..", "foo bar", "a", "c:", "%41", "x#y", "q?z", "\xc3\xa5"});
        });
        if (c.chance(20)) path += "/";
        for (auto& ch : path)
            if (ch == 0) ch = '0';
    }
    c.note("path " + pbt::quote(path));
    const cosim::filesystem::path p(path);
    const auto u = cosim::path_to_file_uri(p);
    c.label("file path");
    c.nontrivial();
    if (path.empty()) {
        PBT_REQUIRE("empty-path", u == "file:", pbt::quote(u.view()));
        return;
    }
    const auto q = parts_of(u);
    PBT_REQUIRE("file-uri", q.scheme && *q.scheme == "file" && q.authority && q.authority->empty() && !q.query && !q.fragment,
        pbt::quote(path), " gave ", pbt::quote(u.view()));
    PBT_REQUIRE("file-uri-chars", valid(q) && upper_escapes(q.path) == encode_ref(path, "/+"), pbt::quote(path), " gave ", pbt::quote(u.view()));
    const auto back = cosim::file_uri_to_path(u);
    PBT_REQUIRE("path-round-trip", back.string() == path, pbt::quote(path), " -> ", pbt::quote(u.view()), " -> ", pbt::quote(back.string()));
    const auto back2 = cosim::file_uri_to_path(std::string(u.view()));
    PBT_REQUIRE("path-round-trip", back2.string() == path, pbt::quote(path));
    const auto back3 = cosim::file_uri_to_path("file://localhost" + q.path);
    PBT_REQUIRE("localhost", back3.string() == path, pbt::quote(path), " via localhost gave ", pbt::quote(back3.string()));
}

void other_uris(pbt::test_case& c)
{
    // which URIs are file URIs of this machine
    opt scheme, authority;
    switch (c.weighted({4, 2, 1, 1})) {
        case 0: scheme = "file"; break;
        case 1: scheme = c.one_of<std::string>({"http", "files", "fil", "f", "proxyfmu", "file2"}); break;
        case 2: break;
        default: scheme = "file";
    }
    switch (c.weighted({3, 3, 2, 1})) {
        case 0: authority = ""; break;
        case 1: authority = c.one_of<std::string>({"example.com", "localhost:80", "user@localhost", "127.0.0.1", "local", "localhostx", "h"}); break;
        case 2: authority = "localhost"; break;
        default: break;
    }
    parts p{scheme, authority, "/" + gen_chars(c, 8, ""), std::nullopt, std::nullopt};
    if (c.chance(20)) p.query = gen_chars(c, 4, "");
    const auto text = recompose(p);
    c.note("file_uri_to_path of " + pbt::quote(text));
    const bool ok = scheme && *scheme == "file" && authority && (authority->empty() || *authority == "localhost");
    try {
        const auto path = cosim::file_uri_to_path(text);
        PBT_REQUIRE("foreign-uri-accepted", ok, pbt::quote(text), " gave ", pbt::quote(path.string()));
        PBT_REQUIRE("path-of-uri", path.string() == cosim::percent_decode(p.path), pbt::quote(text), " gave ", pbt::quote(path.string()));
        c.label("local file URI");
    } catch (const std::invalid_argument& e) {
        PBT_REQUIRE("file-uri-rejected", !ok, pbt::quote(text), ": ", e.what());
        c.label("foreign URI");
    }
    c.nontrivial();
}

void relative_path(pbt::test_case& c)
{
    std::string path = c.one_of<std::string>({"a", "a/b", "./x", "..", "a b/c", ".", "~"});
    path += gen_chars(c, 4, "");
    c.note("relative path " + pbt::quote(path));
    try {
        const auto u = cosim::path_to_file_uri(path);
        pbt::fail("relative-path-accepted", pbt::quote(path) + " gave " + pbt::quote(u.view()));
    } catch (const std::invalid_argument&) {
    }
    c.label("relative path");
}

} // namespace

int main(int argc, char** argv)
{
    pbt::spec s;
    s.id = "C25";
    s.rule = "byte strings (encode then decode), strings with well-formed, truncated and malformed escapes (decode), component tuples "
             "(percent_encode_uri), absolute paths (to file URI and back) and local/foreign URIs, compared with an independent codec; "
             "strings are passed in exactly sized heap blocks under ASan; non-trivial = something needed encoding/decoding.";
    s.quick_cases = 3000000;
    s.thorough_cases = 60000000;
    s.run = [](pbt::test_case& c) {
        switch (c.weighted({6, 8, 4, 6, 3, 1})) {
            case 0: return encode(c);
            case 1: return decode(c);
            case 2: return encode_uri(c);
            case 3: return file_paths(c);
            case 4: return other_uris(c);
            default: return relative_path(c);
        }
    };
    return pbt::main(argc, argv, s);
}
