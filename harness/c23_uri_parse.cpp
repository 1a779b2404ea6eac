// C23: URIs are accepted iff RFC 3986 allows them and split into the right components.
#include "uri_common.hpp"

#include <sstream>

using namespace ref;

namespace
{

/// The invariants every successfully built URI must satisfy.
void check_consistent(const cosim::uri& u, const std::string& text)
{
    const auto p = parts_of(u);
    PBT_REQUIRE("text", std::string(u.view()) == text, "view() is ", pbt::quote(u.view()), " for ", pbt::quote(text));
    PBT_REQUIRE("recompose", recompose(p) == text, "components ", show(p), " do not make up ", pbt::quote(text));
    PBT_REQUIRE("empty", u.empty() == text.empty(), "empty() is wrong for ", pbt::quote(text));
    if (p.scheme) PBT_REQUIRE("component-chars", !p.scheme->empty() && p.scheme->find_first_of(":/?#") == std::string::npos, show(p));
    if (p.authority) PBT_REQUIRE("component-chars", p.authority->find_first_of("/?#") == std::string::npos, show(p));
    PBT_REQUIRE("component-chars", p.path.find_first_of("?#") == std::string::npos, show(p));
    if (p.query) PBT_REQUIRE("component-chars", p.query->find('#') == std::string::npos, show(p));
    std::ostringstream s;
    s << u;
    PBT_REQUIRE("text", s.str() == text, "operator<< printed ", pbt::quote(s.str()), " for ", pbt::quote(text));
}

void check_value_semantics(pbt::test_case& c, const cosim::uri& u, const std::string& text, const std::string& otherText)
{
    const auto p = parts_of(u);
    auto same = [&](const cosim::uri& v, const char* how) {
        PBT_REQUIRE("value-semantics", parts_of(v) == p && std::string(v.view()) == text, how, " of ", pbt::quote(text), " has ", show(parts_of(v)));
        PBT_REQUIRE("value-semantics", v == u && !(v != u), how, " of ", pbt::quote(text), " does not compare equal");
    };
    const cosim::uri copy = u;
    same(copy, "copy");
    cosim::uri source = u;
    const cosim::uri moved = std::move(source);
    source = cosim::uri(otherText); // also destroys what may be shared
    same(moved, "move");
    cosim::uri assigned(otherText);
    assigned = u;
    same(assigned, "copy assignment");
    cosim::uri source2 = u;
    cosim::uri moveAssigned(otherText);
    moveAssigned = std::move(source2);
    source2 = cosim::uri("//zzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzz");
    same(moveAssigned, "move assignment");
    const cosim::uri other(otherText);
    PBT_REQUIRE("comparison", (u == other) == (text == otherText) && (u != other) == (text != otherText),
        pbt::quote(text), " vs ", pbt::quote(otherText));
    // whatever was done to copies, the original is intact
    PBT_REQUIRE("value-semantics", parts_of(u) == p && std::string(u.view()) == text, "original changed: ", pbt::quote(text));
    (void)c;
}

std::string gen_other(pbt::test_case& c, const std::string& text)
{
    switch (c.weighted({1, 1, 1})) {
        case 0: return "x";
        case 1: return text;
        default: {
            auto q = gen_valid(c, 50);
            return recompose(q);
        }
    }
}

void parse_valid(pbt::test_case& c)
{
    const auto p = gen_valid(c, 60);
    const auto text = recompose(p);
    c.note("valid " + show(p));
    if (!valid(p)) pbt::fail("harness", "generator made an invalid reference " + show(p)); // checks the oracle itself
    c.label("valid string");
    if (p.scheme && p.authority && p.query && p.fragment) c.label("all components");
    if (p.path.empty()) c.label("empty path");
    try {
        const cosim::uri u(text);
        PBT_REQUIRE("split", parts_of(u) == p, pbt::quote(text), " was split into ", show(parts_of(u)), " and not ", show(p));
        check_consistent(u, text);
        check_value_semantics(c, u, text, gen_other(c, text));
        const cosim::uri u2{std::string_view(text)};
        PBT_REQUIRE("split", parts_of(u2) == p, pbt::quote(text), " from string_view");
    } catch (const std::invalid_argument& e) {
        pbt::fail("rejected-valid", "valid reference " + pbt::quote(text) + " rejected: " + e.what());
    }
    try {
        const cosim::uri u(to_view(p.scheme), to_view(p.authority), p.path, to_view(p.query), to_view(p.fragment));
        PBT_REQUIRE("compose", parts_of(u) == p && std::string(u.view()) == text, "composing ", show(p), " gave ", pbt::quote(u.view()), " ", show(parts_of(u)));
        check_consistent(u, text);
        check_value_semantics(c, u, text, gen_other(c, text));
        PBT_REQUIRE("compose", u == cosim::uri(text), "composed and parsed differ for ", pbt::quote(text));
    } catch (const std::invalid_argument& e) {
        pbt::fail("compose-rejected-valid", "valid components " + show(p) + " rejected: " + e.what());
    }
    if (text.size() > 3) c.nontrivial();
}

/// A string that need not be a URI.
std::string gen_string(pbt::test_case& c)
{
    std::string s;
    if (c.chance(60)) {
        s = recompose(gen_valid(c, 50));
        c.repeat(0, 4, 1.5, [&](int) {
            const auto pos = c.draw(s.size());
            switch (c.weighted({4, 2, 1})) {
                case 0: s.insert(pos, 1, c.one_of({':', '/', '?', '#', '%', ' ', '\0', '\x80', '@', '[', '1', 'a'})); break;
                case 1:
                    if (pos < s.size()) s.erase(pos, 1 + c.draw(2));
                    break;
                default:
                    if (pos < s.size()) s[pos] = static_cast<char>(c.draw(255));
            }
        });
    } else {
        c.repeat(0, 14, 5, [&](int) {
            s += c.chance(15) ? static_cast<char>(c.draw(255)) : c.one_of({'a', ':', '/', '?', '#', '/', '.', 'b', '1', '%', '+'});
        });
    }
    return s;
}

void parse_any(pbt::test_case& c)
{
    const auto text = gen_string(c);
    c.note("string " + pbt::quote(text));
    const auto expected = split(text);
    const bool isValid = valid(expected);
    c.label(isValid ? "arbitrary string, valid" : "arbitrary string, invalid");
    c.nontrivial();
    try {
        const cosim::uri u(text);
        if (isValid) PBT_REQUIRE("split", parts_of(u) == expected, pbt::quote(text), " was split into ", show(parts_of(u)), " and not ", show(expected));
        PBT_REQUIRE("empty-scheme", text.empty() || text[0] != ':', "empty scheme accepted in ", pbt::quote(text));
        check_consistent(u, text);
        check_value_semantics(c, u, text, "other:x");
    } catch (const std::invalid_argument& e) {
        c.label("rejected");
        PBT_REQUIRE("rejected-valid", !isValid, pbt::quote(text), " rejected: ", e.what());
        // Component boundaries in the lenient reading are still those of the RFC's regular
        // expression, whose only failures are about the scheme.
        PBT_REQUIRE("rejected-lenient", text.find(':') != std::string::npos || !valid(expected), pbt::quote(text), e.what());
    }
}

void compose_any(pbt::test_case& c)
{
    auto p = gen_valid(c, 50);
    c.repeat(1, 3, 1.3, [&](int) {
        auto hit = [&](std::string& s) {
            const auto pos = c.draw(s.size());
            switch (c.weighted({5, 1})) {
                case 0: s.insert(pos, 1, c.one_of({':', '/', '?', '#', '@', '1', ' ', '.'})); break;
                default: s.erase(pos, 1);
            }
        };
        switch (c.weighted({2, 2, 3, 3, 1, 1, 1})) {
            case 0:
                if (!p.scheme) p.scheme = "";
                hit(*p.scheme);
                break;
            case 1:
                if (!p.authority) p.authority = "";
                hit(*p.authority);
                break;
            case 2: hit(p.path); break;
            case 3:
                if (!p.query) p.query = "";
                hit(*p.query);
                break;
            case 4:
                if (!p.fragment) p.fragment = "";
                hit(*p.fragment);
                break;
            case 5: p.scheme.reset(); break;
            default: p.path = "/" + p.path;
        }
    });
    c.note("components " + show(p));
    const auto text = recompose(p);
    const bool isValid = valid(p);
    const bool misread = !(split(text) == p) || (!text.empty() && text[0] == ':') || (p.scheme && p.scheme->empty());
    c.label(isValid ? "components, valid" : misread ? "components, misread" : "components, lenient");
    c.nontrivial();
    try {
        const cosim::uri u(to_view(p.scheme), to_view(p.authority), p.path, to_view(p.query), to_view(p.fragment));
        PBT_REQUIRE("compose-misread", !misread, "components ", show(p), " were accepted, but ", pbt::quote(text), " is read as ", show(split(text)));
        PBT_REQUIRE("compose", parts_of(u) == p, "composing ", show(p), " gave ", show(parts_of(u)));
        check_consistent(u, text);
        check_value_semantics(c, u, text, "x");
    } catch (const std::invalid_argument& e) {
        c.label("composition refused");
        PBT_REQUIRE("compose-rejected-valid", !isValid, "valid components ", show(p), " refused: ", e.what());
    }
}

} // namespace

int main(int argc, char** argv)
{
    pbt::spec s;
    s.id = "C23";
    s.rule = "URI references built from the RFC 3986 grammar, mutations of them, arbitrary byte strings, and component tuples "
             "(valid and with delimiters injected), parsed/composed by cosim::uri and compared with an independent splitter and "
             "validator; non-trivial = longer than 3 characters or not necessarily valid; distinct by choices.";
    s.quick_cases = 3000000;
    s.thorough_cases = 60000000;
    s.run = [](pbt::test_case& c) {
        switch (c.weighted({2, 3, 3})) {
            case 0: return parse_valid(c);
            case 1: return parse_any(c);
            default: return compose_any(c);
        }
    };
    return pbt::main(argc, argv, s);
}
