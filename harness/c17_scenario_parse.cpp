#include "manip.hpp"

#include <cosim/scenario_parser.hpp>

#include <cmath>
#include <cstring>
#include <fstream>
#include <sstream>

using namespace manip;

namespace
{
const char* const printable = " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~\n\t";

class fake_sim : public cosim::manipulable
{
public:
    std::string n;
    cosim::model_description md;
    std::string name() const override { return n; }
    cosim::model_description model_description() const override { return md; }
    void expose_for_getting(variable_type, cosim::value_reference) override { }
    double get_real(cosim::value_reference) const override { return 0; }
    int get_integer(cosim::value_reference) const override { return 0; }
    bool get_boolean(cosim::value_reference) const override { return false; }
    std::string_view get_string(cosim::value_reference) const override { return ""; }
    void expose_for_setting(variable_type, cosim::value_reference) override { }
    void set_real_input_modifier(cosim::value_reference, std::function<double(double, duration)>) override { }
    void set_integer_input_modifier(cosim::value_reference, std::function<int(int, duration)>) override { }
    void set_boolean_input_modifier(cosim::value_reference, std::function<bool(bool, duration)>) override { }
    void set_string_input_modifier(cosim::value_reference, std::function<std::string(std::string_view, duration)>) override { }
    void set_real_output_modifier(cosim::value_reference, std::function<double(double, duration)>) override { }
    void set_integer_output_modifier(cosim::value_reference, std::function<int(int, duration)>) override { }
    void set_boolean_output_modifier(cosim::value_reference, std::function<bool(bool, duration)>) override { }
    void set_string_output_modifier(cosim::value_reference, std::function<std::string(std::string_view, duration)>) override { }
};

// --- documents ---------------------------------------------------------------

/// A value in a document: text, and whether it is a string (which may have to be quoted).
struct scalar
{
    std::string text;
    bool str = true;
};
using fields = std::vector<std::pair<std::string, scalar>>;

struct doc
{
    std::optional<fields> defaults;
    std::vector<fields> events;
    std::optional<scalar> end;
    bool hasEvents = true;
};

std::string hex4(unsigned c)
{
    char b[16];
    std::snprintf(b, sizeof b, "%04x", c);
    return b;
}

std::string double_quoted(pbt::test_case& c, const std::string& s)
{
    std::string r = "\"";
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') {
            r += '\\';
            r += static_cast<char>(ch);
        } else if (ch == '\n') {
            r += "\\n";
        } else if (ch == '\t') {
            r += "\\t";
        } else if (ch < 0x20 || (ch < 0x7f && c.chance(3))) {
            r += "\\u" + hex4(ch);
        } else {
            r += static_cast<char>(ch);
        }
    }
    return r + "\"";
}

std::string yaml_scalar(pbt::test_case& c, const scalar& v)
{
    if (!v.str) return v.text;
    // plain style only if nothing can be misunderstood
    bool plain = !v.text.empty() && std::isalpha(static_cast<unsigned char>(v.text[0]));
    bool single = true;
    for (unsigned char ch : v.text) {
        if (!std::isalnum(ch) && ch != '_' && ch != '.') plain = false;
        if (ch < 0x20) single = false;
    }
    switch (c.draw(2)) {
        case 0:
            if (plain) return v.text;
            [[fallthrough]];
        case 1:
            if (single) {
                std::string r = "'";
                for (char ch : v.text) {
                    r += ch;
                    if (ch == '\'') r += ch;
                }
                return r + "'";
            }
            [[fallthrough]];
        default: return double_quoted(c, v.text);
    }
}

std::string flow(pbt::test_case& c, const fields& f, bool json, const std::string& indent)
{
    const bool lines = c.chance(40);
    std::string r = "{";
    for (std::size_t i = 0; i < f.size(); ++i) {
        r += lines ? "\n" + indent + "  " : i > 0 ? " " : "";
        r += json ? double_quoted(c, f[i].first) : f[i].first;
        r += ": ";
        r += json ? (f[i].second.str ? double_quoted(c, f[i].second.text) : f[i].second.text) : yaml_scalar(c, f[i].second);
        if (i + 1 < f.size()) r += ",";
    }
    if (lines) r += "\n" + indent;
    return r + "}";
}

std::string to_json(pbt::test_case& c, const doc& d)
{
    std::vector<std::string> parts;
    if (d.defaults) parts.push_back("\"defaults\": " + flow(c, *d.defaults, true, "  "));
    if (d.hasEvents) {
        std::string e = "\"events\": [";
        for (std::size_t i = 0; i < d.events.size(); ++i) {
            e += (i > 0 ? ",\n    " : "\n    ") + flow(c, d.events[i], true, "    ");
        }
        parts.push_back(e + "]");
    }
    if (d.end) parts.push_back("\"end\": " + (d.end->str ? double_quoted(c, d.end->text) : d.end->text));
    c.shuffle(parts);
    std::string r = "{";
    for (std::size_t i = 0; i < parts.size(); ++i) r += (i > 0 ? ",\n  " : "\n  ") + parts[i];
    return r + "\n}\n";
}

std::string to_yaml(pbt::test_case& c, const doc& d)
{
    std::vector<std::string> parts;
    auto comment = [&]() -> std::string { return c.chance(10) ? "  # model: nothing\n" : "\n"; };
    if (d.defaults) {
        std::string p = "defaults:";
        if (d.defaults->empty() || c.chance(30)) {
            p += " " + flow(c, *d.defaults, false, "  ") + "\n";
        } else {
            p += "\n";
            for (auto& [k, v] : *d.defaults) p += "  " + k + ": " + yaml_scalar(c, v) + comment();
        }
        parts.push_back(p);
    }
    if (d.hasEvents) {
        std::string p = "events:";
        if (d.events.empty()) {
            p += " []\n";
        } else {
            p += "\n";
            const std::string in = c.chance(50) ? "  " : "";
            for (auto& e : d.events) {
                if (e.empty() || c.chance(30)) {
                    p += in + "- " + flow(c, e, false, in + "  ") + "\n";
                } else {
                    bool first = true;
                    for (auto& [k, v] : e) {
                        p += in + (first ? "- " : "  ") + k + ": " + yaml_scalar(c, v) + comment();
                        first = false;
                    }
                }
            }
        }
        parts.push_back(p);
    }
    if (d.end) parts.push_back("end: " + yaml_scalar(c, *d.end) + comment());
    c.shuffle(parts);
    std::string r = c.chance(20) ? "---\n" : "";
    for (auto& p : parts) r += p;
    return r;
}

// --- values ------------------------------------------------------------------

/// Text that is the same number in YAML and JSON.
std::string number_text(pbt::test_case& c, double& v)
{
    std::ostringstream o;
    switch (c.draw(4)) {
        case 0: o << c.range(-1000, 1000); break;
        case 1: o << c.range(-1000, 1000) << "." << c.range(1, 999); break;
        case 2: o << c.range(0, 20) << "." << c.range(0, 9); break;
        case 3: o << c.range(-9, 9) << "." << c.range(0, 99) << (c.chance(50) ? "e" : "E") << (c.chance(30) ? "-" : c.chance(30) ? "+" : "") << c.range(0, 5); break;
        default: {
            v = c.real();
            if (!std::isfinite(v)) v = 0.5;
            o.precision(17);
            o << v;
            if (o.str().find_first_of(".eE") == std::string::npos) o << ".0";
        }
    }
    v = std::strtod(o.str().c_str(), nullptr);
    return o.str();
}

/// Non-negative seconds with up to nine decimals.
std::string time_text(pbt::test_case& c, time_point& t)
{
    std::ostringstream o;
    if (c.chance(30)) {
        o << c.range(0, 100000);
    } else if (c.chance(10)) {
        o << c.range(1, 9) << "e" << c.range(-3, 3);
    } else {
        o << c.range(0, 100) << "." << c.range(0, c.chance(50) ? 9 : 999999999);
    }
    t = cosim::to_time_point(std::strtod(o.str().c_str(), nullptr));
    return o.str();
}

std::string gen_name(pbt::test_case& c)
{
    static const std::string odd[] = {"a b", "x.y", "v[1]", "v[1,2]", "der(x)", "ref: y", "- x", "#h", "null", "true", "12", "1.5", "~", "'q'", "\"q\"", "\xc3\xa6\xc3\xb8", "a\\b", " lead", "a: b", "{x}", "*p", "&a", "!t", "%d", "reset", "model"};
    switch (c.weighted({60, 25, 15})) {
        case 0: return std::string(1, static_cast<char>('a' + c.draw(25))) + (c.chance(50) ? std::to_string(c.draw(99)) : "");
        case 1: return odd[c.draw(std::size(odd) - 1)];
        default: {
            auto s = c.ascii(12, printable);
            return s.empty() ? "v" : s;
        }
    }
}

struct expectation
{
    int sim;
    cosim::variable_description vd;
    std::string action;
    value val;
    time_point t;
};

/// Writes the document and parses it.
cosim::scenario::scenario parse(const std::string& text, const std::string& ext, const std::unordered_map<cosim::simulator_index, cosim::manipulable*>& sims)
{
    const auto p = pbt::scratch() + "/scenario." + ext;
    {
        std::ofstream f(p, std::ios::binary);
        f << text;
    }
    return cosim::parse_scenario(p, sims);
}

template<typename T, typename M>
void check_function(const M& m, const expectation& e, T original, const std::string& where)
{
    if (e.action == "reset") {
        PBT_REQUIRE("modifier", !m.f, where, ": the modifier of a reset is not empty");
        return;
    }
    PBT_REQUIRE("modifier", static_cast<bool>(m.f), where, ": no modifier");
    const T v = std::get<T>(e.val);
    for (auto d : {duration(0), duration(1), duration(1000000007)}) {
        for (int n = 0; n < 2; ++n) {
            const T got = m.f(original, d);
            T want = v;
            if (e.action == "bias") {
                if constexpr (std::is_same_v<T, double> || std::is_same_v<T, int>) want = original + v;
            }
            const bool same = [&] {
                if constexpr (std::is_same_v<T, double>) return got == want || (std::isnan(got) && std::isnan(want));
                else return got == want;
            }();
            PBT_REQUIRE("modifier", same, where, " (", e.action, " ", show(e.val), "): modifier gives ", show(value(got)), " for ", show(value(original)), ", expected ", show(value(want)));
        }
    }
}

void check(pbt::test_case& c, const cosim::scenario::scenario& got, const std::vector<expectation>& want, std::optional<time_point> end, const std::string& form)
{
    PBT_REQUIRE("event-count", got.events.size() == want.size(), form, ": ", got.events.size(), " events, expected ", want.size());
    for (std::size_t i = 0; i < want.size(); ++i) {
        const auto& g = got.events[i];
        const auto& w = want[i];
        const auto where = pbt::cat(form, " event ", i);
        PBT_REQUIRE("event-time", g.time == w.t, where, ": time ", show(g.time), ", expected ", show(w.t));
        PBT_REQUIRE("event-simulator", g.action.simulator == w.sim, where, ": simulator ", g.action.simulator, ", expected ", w.sim);
        PBT_REQUIRE("event-variable", g.action.variable == w.vd.reference, where, ": variable ", g.action.variable, ", expected ", w.vd.reference);
        PBT_REQUIRE("event-side", g.action.is_input == is_input(w.vd.causality), where, ": is_input is ", g.action.is_input, " for causality ", w.vd.causality);
        PBT_REQUIRE("event-type", g.action.modifier.index() == static_cast<std::size_t>(w.vd.type), where, ": modifier for type ", g.action.modifier.index(), ", expected ", w.vd.type);
        switch (w.vd.type) {
            case variable_type::real: check_function<double>(std::get<0>(g.action.modifier), w, std::get<double>(gen_value(c, w.vd.type)), where); break;
            case variable_type::integer: check_function<int>(std::get<1>(g.action.modifier), w, c.irange(-1000, 1000), where); break;
            case variable_type::boolean: check_function<bool>(std::get<2>(g.action.modifier), w, c.chance(50), where); break;
            default: check_function<std::string>(std::get<3>(g.action.modifier), w, c.ascii(6, printable), where);
        }
    }
    PBT_REQUIRE("end", got.end == end, form, ": end time ", got.end ? show(*got.end) : "absent", ", expected ", end ? show(*end) : "absent");
}

void run(pbt::test_case& c)
{
    // simulators
    std::vector<fake_sim> fakes(c.irange(1, 3));
    std::unordered_map<cosim::simulator_index, cosim::manipulable*> sims;
    std::vector<int> index;
    std::set<std::string> names, varPool;
    std::vector<std::string> pool;
    for (int k = 0; k < 6; ++k) pool.push_back(gen_name(c));
    int next = c.irange(0, 3);
    for (auto& f : fakes) {
        do {
            f.n = gen_name(c) + (names.empty() ? "" : std::to_string(names.size()));
        } while (!names.insert(f.n).second);
        std::set<std::string> used;
        std::map<int, cosim::value_reference> nextRef;
        for (int k = c.irange(1, 7); k > 0; --k) {
            cosim::variable_description v;
            v.name = c.chance(50) ? c.pick(pool) : gen_name(c);
            if (!used.insert(v.name).second) continue;
            v.type = static_cast<variable_type>(c.draw(3));
            // references are reused by other types
            v.reference = nextRef[static_cast<int>(v.type)] += 1 + static_cast<cosim::value_reference>(c.draw(2));
            static const variable_causality cs[] = {variable_causality::input, variable_causality::output, variable_causality::parameter, variable_causality::calculated_parameter, variable_causality::local};
            v.causality = cs[c.weighted({30, 30, 15, 15, 10})];
            v.variability = variable_variability::continuous;
            f.md.variables.push_back(v);
        }
        f.md.name = "m";
        index.push_back(next);
        sims[next] = &f;
        next += c.irange(1, 4);
    }
    std::vector<std::pair<int, int>> vars, locals;
    for (std::size_t i = 0; i < fakes.size(); ++i) {
        for (std::size_t v = 0; v < fakes[i].md.variables.size(); ++v) {
            (modifiable(fakes[i].md.variables[v].causality) ? vars : locals).push_back({static_cast<int>(i), static_cast<int>(v)});
        }
    }
    if (vars.empty()) c.discard();

    // A document and what it means.
    doc d;
    std::vector<expectation> want;
    std::optional<time_point> end;
    std::optional<std::string> defModel, defVar, defAction;
    if (c.chance(60)) {
        d.defaults.emplace();
        const auto v = c.pick(vars);
        if (c.chance(60)) {
            defModel = fakes[v.first].n;
            d.defaults->push_back({"model", {*defModel}});
        }
        if (c.chance(60)) {
            defVar = fakes[v.first].md.variables[v.second].name;
            d.defaults->push_back({"variable", {*defVar}});
        }
        if (c.chance(60)) {
            defAction = c.one_of<std::string>({"override", "bias", "reset"});
            d.defaults->push_back({"action", {*defAction}});
        }
        c.shuffle(*d.defaults);
    }
    auto gen_event = [&](bool yamlWords) {
        auto v = c.pick(vars);
        if (defModel && c.chance(40)) {
            for (auto& x : vars) {
                if (fakes[x.first].n == *defModel && (!defVar || fakes[x.first].md.variables[x.second].name == *defVar || c.chance(30))) v = x;
            }
        }
        const auto& vd = fakes[v.first].md.variables[v.second];
        fields f;
        expectation e;
        e.sim = index[v.first];
        e.vd = vd;
        f.push_back({"time", {time_text(c, e.t), false}});
        if (!(defModel && *defModel == fakes[v.first].n && c.chance(80))) f.push_back({"model", {fakes[v.first].n}});
        if (!(defVar && *defVar == vd.name && c.chance(80))) f.push_back({"variable", {vd.name}});
        std::vector<std::string> actions{"override", "reset"};
        if (vd.type == variable_type::real || vd.type == variable_type::integer) actions.push_back("bias");
        e.action = c.pick(actions);
        if (defAction && c.chance(60)) {
            for (auto& a : actions) {
                if (a == *defAction) e.action = a;
            }
        }
        if (!(defAction && *defAction == e.action && c.chance(80))) f.push_back({"action", {e.action}});
        if (e.action != "reset" || c.chance(10)) {
            scalar t;
            switch (vd.type) {
                case variable_type::real: {
                    double x;
                    t = {number_text(c, x), false};
                    e.val = x;
                    break;
                }
                case variable_type::integer: {
                    const int x = c.chance(10) ? c.one_of<int>({2147483647, -2147483647 - 1}) : c.irange(-100000, 100000);
                    if (e.action == "bias" && std::abs(static_cast<long long>(x)) > 100000) {
                        t = {"7", false};
                        e.val = 7;
                    } else {
                        t = {std::to_string(x), false};
                        e.val = x;
                    }
                    break;
                }
                case variable_type::boolean: {
                    const bool x = c.chance(50);
                    t = {x ? "true" : "false", false};
                    if (yamlWords && c.chance(40)) t.text = x ? c.one_of<std::string>({"yes", "True", "on", "TRUE"}) : c.one_of<std::string>({"no", "False", "off", "FALSE"});
                    e.val = x;
                    break;
                }
                default: {
                    const auto x = c.chance(60) ? c.ascii(10, printable) : gen_name(c);
                    t = scalar{x};
                    e.val = x;
                }
            }
            f.push_back({"value", t});
        }
        c.shuffle(f);
        d.events.push_back(f);
        want.push_back(e);
    };
    const bool yamlOnly = c.chance(20);
    c.repeat(0, 8, 4, [&](int) { gen_event(yamlOnly); });
    if (c.chance(50)) {
        time_point t;
        d.end = scalar{time_text(c, t), false};
        end = t;
    }

    const int mode = static_cast<int>(c.weighted({60, 30, 10}));
    if (mode == 0) {
        const auto y = to_yaml(c, d);
        c.note("YAML:\n" + y);
        check(c, parse(y, "yml", sims), want, end, "YAML");
        if (!yamlOnly) {
            const auto j = to_json(c, d);
            c.note("JSON:\n" + j);
            check(c, parse(j, "json", sims), want, end, "JSON");
        }
        if (want.size() >= 2) c.nontrivial();
        if (d.defaults) c.label("with defaults");
        return;
    }
    if (mode == 1) {
        // One thing wrong.
        if (d.events.empty()) {
            gen_event(yamlOnly);
        }
        const auto k = c.draw(d.events.size() - 1);
        auto& e = d.events[k];
        auto& w = want[k];
        auto find = [&](const std::string& n) -> scalar& {
            for (auto& [key, v] : e) {
                if (key == n) return v;
            }
            e.push_back({n, {}});
            return e.back().second;
        };
        auto erase = [&](const std::string& n) {
            for (auto it = e.begin(); it != e.end();) it = it->first == n ? e.erase(it) : it + 1;
            if (d.defaults) {
                for (auto it = d.defaults->begin(); it != d.defaults->end();) it = it->first == n ? d.defaults->erase(it) : it + 1;
            }
        };
        std::string what;
        bool changedEnd = false;
        auto other_name = [&](auto exists) {
            std::string n = gen_name(c);
            while (exists(n)) n += "x";
            return n;
        };
        switch (c.draw(10)) {
            case 0:
                what = "unknown model";
                find("model") = {other_name([&](const std::string& n) { return names.count(n) > 0; })};
                break;
            case 1: {
                what = "unknown variable";
                for (std::size_t i = 0; i < fakes.size(); ++i) {
                    if (index[i] != w.sim) continue;
                    std::string n;
                    const auto exists = [&](const std::string& n) { return cosim::find_variable(fakes[i].md, n).has_value(); };
                    if (c.chance(80) || exists(n)) n = other_name(exists);
                    find("variable") = {n};
                }
                break;
            }
            case 2:
                what = "unknown action";
                if (w.action == "reset") find("value") = {"1", false};
                find("action") = {c.one_of<std::string>({"Override", "biass", "ramp", "", "resetting", "over ride"})};
                break;
            case 3: {
                what = "local variable";
                if (locals.empty()) c.discard();
                const auto l = c.pick(locals);
                const auto& vd = fakes[l.first].md.variables[l.second];
                find("model") = {fakes[l.first].n};
                find("variable") = {vd.name};
                if (vd.type == variable_type::string) find("value") = {"x"};
                if (vd.type == variable_type::boolean) find("value") = {"true", false};
                if (vd.type == variable_type::real || vd.type == variable_type::integer) find("value") = {"1", false};
                find("action") = {"override"};
                break;
            }
            case 4: {
                const auto n = c.one_of<std::string>({"time", "model", "variable", "action"});
                what = "missing " + n;
                erase(n);
                break;
            }
            case 5:
                what = "missing value";
                if (w.action == "reset") find("action") = {"override"};
                erase("value");
                break;
            case 6:
                what = "wrong type of value";
                if (w.vd.type == variable_type::string) c.discard();
                find("action") = {"override"};
                find("value") = w.vd.type == variable_type::boolean ? scalar{c.one_of<std::string>({"1.5", "2", "maybe", "tru"}), true}
                    : w.vd.type == variable_type::integer           ? scalar{c.one_of<std::string>({"1.5", "x", "true", "1 2", "", "99999999999", "1e"}), true}
                                                                    : scalar{c.one_of<std::string>({"x", "true", "1.5.2", "1 2", "", "1,5", "1.5m"}), true};
                break;
            case 7:
                what = "bias on string";
                if (w.vd.type != variable_type::string) c.discard();
                find("action") = {"bias"};
                find("value") = {"x"};
                break;
            case 8:
                what = "invalid time";
                find("time") = {c.one_of<std::string>({"x", "", "1.5s", "true", "1 2"})};
                break;
            case 9:
                what = "invalid end time";
                d.end = scalar{c.one_of<std::string>({"x", "", "1.5s", "never"})};
                changedEnd = true;
                break;
            default:
                what = "malformed document";
        }
        (void)changedEnd;
        const bool json = c.chance(50) && !yamlOnly;
        auto text = json ? to_json(c, d) : to_yaml(c, d);
        if (what == "malformed document") {
            switch (c.draw(3)) {
                case 0: text += "\n]"; break;
                case 1: text = "{\"events\": [" + text; break;
                case 2: text = "events: \"abc"; break;
                default: text = "just some text"; break;
            }
        }
        c.note(what + ":\n" + text);
        bool threw = false;
        try {
            parse(text, json ? "json" : "yml", sims);
        } catch (const std::exception& x) {
            threw = true;
            c.note(x.what());
        }
        PBT_REQUIRE("invalid-accepted", threw, "a scenario with ", what, " was accepted:\n", text);
        c.label(what);
        c.nontrivial();
        return;
    }
    // Mutated text: anything but a crash.
    auto text = c.chance(50) ? to_yaml(c, d) : to_json(c, d);
    c.repeat(1, 6, 2, [&](int) {
        const auto p = text.empty() ? 0 : c.draw(text.size() - 1);
        switch (c.draw(3)) {
            case 0: text.erase(p, 1 + c.draw(8)); break;
            case 1: text.insert(p, 1, "{}[]:,-#&*!|>'\"%@\n\t \\0x"[c.draw(23)]); break;
            case 2: text.insert(p, c.bytes(4)); break;
            default: text.insert(p, text.substr(p / 2, c.draw(20)));
        }
    });
    c.note("mutated:\n" + pbt::quote(text));
    try {
        const auto sc = parse(text, "yml", sims);
        for (auto& e : sc.events) {
            bool known = false;
            for (std::size_t i = 0; i < fakes.size(); ++i) {
                if (index[i] != e.action.simulator) continue;
                for (auto& v : fakes[i].md.variables) {
                    known = known || (v.reference == e.action.variable && static_cast<std::size_t>(v.type) == e.action.modifier.index() && modifiable(v.causality) && is_input(v.causality) == e.action.is_input);
                }
            }
            PBT_REQUIRE("event-unknown", known, "an event for a variable that does not exist");
        }
        c.label("mutated, accepted");
    } catch (const std::exception&) {
        c.label("mutated, rejected");
    }
}
} // namespace

int main(int argc, char** argv)
{
    pbt::spec s;
    s.id = "C17";
    s.rule = "generated scenarios over generated simulators, written as YAML in various styles and as JSON, parsed and compared event by event; the same with one thing wrong, which must be rejected; and arbitrarily mutated text; non-trivial: at least two events, or an invalid document";
    s.quick_cases = 60000;
    s.thorough_cases = 1500000;
    s.setup = setup_process;
    s.run = run;
    return pbt::main(argc, argv, s);
}
