// C24: reference resolution follows RFC 3986 section 5.2.
#include "uri_common.hpp"

using namespace ref;

namespace
{

void run(pbt::test_case& c)
{
    const auto base = gen_valid(c, 92);
    parts r;
    const bool fromBase = c.chance(10);
    if (fromBase) {
        r = base; // "same document" and friends
        if (c.chance(50)) r.scheme.reset();
        if (c.chance(50)) {
            r.authority.reset();
            while (r.path.compare(0, 2, "//") == 0) r.path.erase(0, 1);
        }
        if (c.chance(30)) r.query.reset();
        if (!r.scheme && !r.authority) {
            const auto e = std::min(r.path.find('/'), r.path.size());
            for (std::size_t i = 0; i < e; ++i)
                if (r.path[i] == ':') r.path[i] = ';';
        }
    } else {
        r = gen_valid(c, 15);
    }
    const auto bt = recompose(base), rt = recompose(r);
    c.note("base " + pbt::quote(bt) + " reference " + pbt::quote(rt));
    const cosim::uri b(bt), u(rt);

    if (!base.scheme) {
        c.label("relative base");
        try {
            const auto t = cosim::resolve_reference(b, u);
            pbt::fail("relative-base", "relative base " + pbt::quote(bt) + " accepted, giving " + pbt::quote(t.view()));
        } catch (const std::invalid_argument&) {
        }
        return;
    }
    auto expected = resolve(base, r);
    const auto text = recompose(expected);
    if (!expected.authority && expected.path.compare(0, 2, "//") == 0) {
        // The RFC's algorithm has a result here which is not a URI (section 3.3): it may be refused, but
        // what is returned must be a consistent URI.
        c.label("unrepresentable target");
        try {
            const auto t = cosim::resolve_reference(b, u);
            PBT_REQUIRE("inconsistent-target", parts_of(cosim::uri(std::string(t.view()))) == parts_of(t), pbt::quote(bt), " + ", pbt::quote(rt), " -> ", show(parts_of(t)));
        } catch (const std::invalid_argument&) {
        }
        return;
    }
    const auto t = cosim::resolve_reference(b, u);
    PBT_REQUIRE("resolution", parts_of(t) == expected && std::string(t.view()) == text,
        pbt::quote(bt), " + ", pbt::quote(rt), " gave ", pbt::quote(t.view()), " = ", show(parts_of(t)), ", but the RFC gives ", pbt::quote(text));
    PBT_REQUIRE("absolute", t.scheme().has_value(), pbt::quote(t.view()));

    // the arguments are left alone, and may be temporaries of any string type
    PBT_REQUIRE("arguments", std::string(b.view()) == bt && std::string(u.view()) == rt, "");
    PBT_REQUIRE("overload", cosim::resolve_reference(bt, std::string_view(rt)) == t, pbt::quote(bt), " + ", pbt::quote(rt));

    if (r.scheme) {
        // independent of the base
        const auto other = gen_valid(c, 100);
        const auto t2 = cosim::resolve_reference(recompose(other), u);
        PBT_REQUIRE("base-independence", t2 == t, pbt::quote(rt), " against ", pbt::quote(bt), " and ", pbt::quote(recompose(other)));
        c.label("absolute reference");
    }
    // resolving a target again changes nothing more than its dot segments
    auto again = expected;
    again.path = remove_dots(expected.path);
    if (again.authority || again.path.compare(0, 2, "//") != 0) {
        const auto t3 = cosim::resolve_reference(b, t);
        PBT_REQUIRE("re-resolution", std::string(t3.view()) == recompose(again), pbt::quote(t.view()), " -> ", pbt::quote(t3.view()));
    }

    const auto& rp = r.path;
    if (rp.find("..") != std::string::npos || base.path.find("..") != std::string::npos) c.label("dot-dot");
    if (rp.find("//") != std::string::npos || base.path.find("//") != std::string::npos) c.label("empty segment");
    if (rp.empty()) c.label("empty path");
    if (base.authority && base.path.empty()) c.label("merge with empty base path");
    if (!r.scheme && !r.authority && !rp.empty() && rp[0] != '/') c.label("merge");
    if (text != rt) c.nontrivial();
}

} // namespace

int main(int argc, char** argv)
{
    pbt::spec s;
    s.id = "C24";
    s.rule = "pairs of a base URI and a URI reference generated from the RFC 3986 grammar with many '.', '..' and empty segments, "
             "resolved and compared with an independent segment-based implementation of section 5.2; non-trivial = the target differs from the reference.";
    s.quick_cases = 3000000;
    s.thorough_cases = 60000000;
    s.run = run;
    return pbt::main(argc, argv, s);
}
