// C20: an OSP system structure file loads to precisely the system it describes.
#include "structure.hpp"
#include "fmu_stub.hpp"
#include "xml.hpp"

#include <cosim/osp_config_parser.hpp>
#include <cosim/uri.hpp>

#include <boost/log/core.hpp>

#include <filesystem>
#include <fstream>
#include <limits>
#include <set>
#include <unistd.h>

using namespace structure;
namespace fs = std::filesystem;
std::unique_ptr<cosim::function> gen_function_type::instantiate(const cosim::function_parameter_value_map&) { throw std::logic_error("not used"); }

namespace
{
const char* const NS = "http://opensimulationplatform.com/MSMI/OSPSystemStructure";
using fname = cosim::full_variable_name;
using cosim::variable_description;

class plain_model : public cosim::model
{
public:
    std::shared_ptr<cosim::model_description> md = std::make_shared<cosim::model_description>();
    std::shared_ptr<const cosim::model_description> description() const noexcept override { return md; }
    std::shared_ptr<cosim::slave> instantiate(std::string_view) override { throw std::logic_error("not to be instantiated"); }
};

class map_resolver : public cosim::model_uri_sub_resolver
{
public:
    std::map<std::string, std::shared_ptr<plain_model>> models;
    using cosim::model_uri_sub_resolver::lookup_model;
    std::shared_ptr<cosim::model> lookup_model(const cosim::uri& u) override
    {
        const auto it = models.find(std::string(u.view()));
        return it == models.end() ? nullptr : it->second;
    }
};

struct shape
{
    std::vector<std::pair<variable_type, bool>> leaves; // true: output at the "plus" side
    std::vector<shape> kids;
    int count() const
    {
        int n = static_cast<int>(leaves.size());
        for (auto& k : kids) n += k.count();
        return n;
    }
};

struct group
{
    std::string name, tag;
    std::vector<std::string> vars;
    std::vector<group> kids;
    int shapeIndex = -1;
    bool plus = false;
};

struct gmodel
{
    std::shared_ptr<plain_model> m = std::make_shared<plain_model>();
    std::vector<group> groups;
    std::string uri; // the absolute one
    std::vector<std::string> refs; // what may be written in a document
    fs::path groupFile;
    bool groupsWritten = true;
    cosim::value_reference next = 0;

    const variable_description* add(const std::string& name, variable_type t, variable_causality ca, variable_variability v)
    {
        variable_description d{name, next++, t, ca, v, std::nullopt};
        for (auto& o : m->md->variables) {
            if (o.name == name) d.name += pbt::cat("#", d.reference);
        }
        m->md->variables.push_back(d);
        return &m->md->variables.back();
    }
};

std::string gen_name(pbt::test_case& c, const char* prefix, int n)
{
    switch (c.weighted({70, 15, 10, 5})) {
        case 0: return pbt::cat(prefix, n);
        case 1: return pbt::cat(c.one_of<std::string>({"a b", "p[1].x", "d<e&f", "\"q\"'s", "\xc3\xb8re", "\xe6\xb0\xb4", "x:y", "--", "in", "]]>", "\xf0\x9f\x9a\xa2"}), prefix, n);
        case 2: return pbt::cat(prefix, n, c.one_of<std::string>({" ", "\xc3\xa5", ".y", "[2]", "  z", "\t", "\n"}));
        default: return pbt::cat(prefix, n, "_", std::string(static_cast<std::size_t>(c.irange(1, 300)), 'n'));
    }
}

std::string number(pbt::test_case& c, double x)
{
    char b[64];
    switch (c.draw(2)) {
        case 0: std::snprintf(b, sizeof b, "%.17g", x); break;
        case 1: std::snprintf(b, sizeof b, "%.17e", x); break;
        default: std::snprintf(b, sizeof b, "%s%.17G", x >= 0 && !std::signbit(x) ? "+" : "", x); break;
    }
    std::string r = b;
    if (std::isinf(x)) r = x > 0 ? "INF" : "-INF";
    if (std::isnan(x)) r = "NaN";
    if (c.chance(5)) r = " \n" + r + "  ";
    return r;
}

double gen_seconds(pbt::test_case& c, bool positive)
{
    switch (c.weighted({40, 30, 20, 10})) {
        case 0: return c.irange(positive ? 1 : 0, 1000) / 100.0;
        case 1: return static_cast<double>(c.range(positive ? 1 : 0, 2000000000000ll)) * 1e-9;
        case 2: return c.one_of<double>({1e-4, 2.03e-4, 1e-9, 0.5, 3600.0, 1e6, 9e9});
        default: return positive ? 1.0 : -c.irange(0, 1000) / 8.0;
    }
}

bool close(std::int64_t ns, double seconds)
{
    // one nanosecond, or the precision of a double
    const long double want = static_cast<long double>(seconds) * 1e9L;
    const long double tol = std::max(1.01L, std::abs(want) * 1e-15L);
    return std::abs(static_cast<long double>(ns) - want) <= tol;
}

struct sim_item
{
    std::string name, source;
    int model;
    std::optional<double> step;
    std::vector<std::pair<std::string, cosim::scalar_value>> initial;
    std::vector<std::string> initialText;
};

struct fun_item
{
    std::string name;
    int kind; // 0 linear, 1 sum, 2 vector sum
    double factor = 1, offset = 0;
    bool giveFactor = false, giveOffset = false;
    int inputs = 1, dim = 1;
};

std::string conn_key(const fname& n)
{
    return n.variable_group_name.empty() ? "S" + pbt::quote(n.entity_name) + pbt::quote(n.variable_name)
                                         : pbt::cat("F", pbt::quote(n.entity_name), pbt::quote(n.variable_group_name), n.variable_group_instance, pbt::quote(n.variable_name), n.variable_instance);
}

void write_file(const fs::path& p, const std::string& t)
{
    fs::create_directories(p.parent_path());
    std::ofstream f(p, std::ios::binary);
    f << t;
    if (!f.flush()) throw std::runtime_error("harness: cannot write " + p.string());
}

shape gen_shape(pbt::test_case& c, int depth)
{
    shape s;
    if (depth < 4 && c.chance(depth == 0 ? 50 : 30)) {
        for (int k = c.irange(1, 3); k > 0; --k) s.kids.push_back(gen_shape(c, depth + 1));
    }
    const bool mixed = c.chance(40);
    const bool dir = c.chance(70);
    for (int k = s.kids.empty() ? c.irange(1, 3) : c.irange(0, 2); k > 0; --k)
        s.leaves.push_back({mixed ? static_cast<variable_type>(c.draw(3)) : variable_type::real, mixed ? c.chance(50) : dir});
    return s;
}

group realize(pbt::test_case& c, gmodel& m, const shape& s, bool plus, const std::string& name, int& n)
{
    group g;
    g.name = name;
    g.tag = c.one_of<std::string>({"Generic", "LinearMechanicalPort", "Force", "LinearVelocity"});
    g.plus = plus;
    for (auto& k : s.kids) {
        // the same names under several parents
        const auto kn = c.chance(60) ? c.one_of<std::string>({"force", "velocity", "port"}) : gen_name(c, "n", n++);
        std::string unique = kn;
        for (auto& o : g.kids) {
            if (o.name == unique) unique += pbt::cat("'", n++);
        }
        g.kids.push_back(realize(c, m, k, plus, unique, n));
    }
    for (auto& [t, out] : s.leaves) {
        const bool o = out == plus;
        g.vars.push_back(m.add(gen_name(c, "gv", n++), t, o ? variable_causality::output : variable_causality::input, variable_variability::discrete)->name);
    }
    return g;
}

void write_group(xml::el& parent, const group& g, const std::string& p)
{
    auto* e = parent.add(p + g.tag, {{"name", g.name}});
    for (auto& k : g.kids) write_group(*e, k, p);
    for (auto& v : g.vars) e->add(p + "Variable", {{"ref", v}});
}

/// Groups (at any level) whose names occur once in the model.
void collect(const std::vector<group>& gs, std::vector<const group*>& all)
{
    for (auto& g : gs) {
        all.push_back(&g);
        collect(g.kids, all);
    }
}

void run(pbt::test_case& c)
{
    boost::log::core::get()->set_logging_enabled(false);
    const fs::path base = fs::path(pbt::scratch()) / "c20";
    fs::remove_all(base);

    // --- where things are -----------------------------------------------
    const auto dirName = [&] {
        return c.chance(70) ? std::string("cfg") : c.one_of<std::string>({"c f g", "c#g", "c%20g", "c\xc3\xb8g", "c?g", "c&g", "c;g", "c+g", "c%g"});
    };
    const fs::path cfgDir = base / dirName();
    const auto cfgName = c.chance(60) ? std::string("OspSystemStructure.xml") : c.one_of<std::string>({"my system.xml", "s#1.xml", "\xc3\xa6.xml", "x", "50%.xml"});
    const fs::path cfgFile = cfgDir / cfgName;
    fs::create_directories(cfgDir);

    // --- models ---------------------------------------------------------
    std::vector<shape> shapes;
    for (int k = c.irange(0, 3); k > 0; --k) shapes.push_back(gen_shape(c, 0));
    std::vector<gmodel> models(static_cast<std::size_t>(c.irange(1, 3)));
    auto resolver = std::make_shared<map_resolver>();
    int counter = 0;
    for (std::size_t i = 0; i < models.size(); ++i) {
        auto& m = models[i];
        m.m->md->name = pbt::cat(c.chance(80) ? "Model" : c.one_of<std::string>({"M odel", "M\xc3\xb8", "M%20", "M#"}), i);
        m.m->md->uuid = pbt::cat("uuid-", i);
        const int n = c.irange(2, 10);
        for (int k = 0; k < n; ++k) {
            const auto t = c.chance(60) ? variable_type::real : static_cast<variable_type>(c.draw(3));
            const auto ca = c.one_of<variable_causality>({variable_causality::output, variable_causality::input, variable_causality::parameter, variable_causality::calculated_parameter, variable_causality::local});
            auto va = ca == variable_causality::parameter || ca == variable_causality::calculated_parameter ? c.one_of<variable_variability>({variable_variability::tunable, variable_variability::fixed}) : variable_variability::discrete;
            if (ca == variable_causality::local && c.chance(20)) va = variable_variability::constant;
            m.add(gen_name(c, "v", k), t, ca, va);
        }
        for (std::size_t s = 0; s < shapes.size(); ++s) {
            for (int plus = 0; plus < 2; ++plus) {
                if (!c.chance(75)) continue;
                m.groups.push_back(realize(c, m, shapes[s], plus, gen_name(c, plus ? "P" : "M", static_cast<int>(s)), counter));
                m.groups.back().shapeIndex = static_cast<int>(s);
            }
        }
        // where it is
        switch (c.weighted({50, 20, 15, 15})) {
            case 0: { // a file below or beside the configuration
                const auto sub = c.one_of<std::string>({"", "sub/", "../models/", "./", "sub/../sub/"});
                const auto file = c.one_of<std::string>({"m", "m%20n", "m.x"}) + std::to_string(i) + ".fmu";
                const auto u = cosim::resolve_reference(cosim::path_to_file_uri(cfgFile), cosim::uri(sub + file));
                m.uri = std::string(u.view());
                m.refs = {sub + file, m.uri};
                m.groupFile = (cfgDir / sub).lexically_normal() / (m.m->md->name + "_OspModelDescription.xml");
                if (c.chance(30)) { // or in the configuration's directory
                    m.groupFile = cfgDir / m.groupFile.filename();
                } else if (c.chance(30) && m.groupFile != cfgDir / m.groupFile.filename()) {
                    write_file(cfgDir / m.groupFile.filename(), "<OspModelDescription><VariableGroups><Generic name=\"decoy\"><Variable ref=\"v0\"/></Generic></VariableGroups></OspModelDescription>");
                }
                break;
            }
            case 1: { // an absolute file URI elsewhere
                const auto dir = base / c.one_of<std::string>({"elsewhere", "else where", "els\xc3\xa9"});
                m.uri = std::string(cosim::path_to_file_uri(dir / pbt::cat("m", i, ".fmu")).view());
                m.refs = {m.uri};
                m.groupFile = dir / (m.m->md->name + "_OspModelDescription.xml");
                break;
            }
            case 2:
                m.uri = pbt::cat("test:model", i);
                m.refs = {m.uri};
                m.groupFile = cfgDir / (m.m->md->name + "_OspModelDescription.xml");
                break;
            default: { // a proxy
                const auto sub = c.one_of<std::string>({"", "sub/"});
                m.uri = pbt::cat("proxyfmu://localhost:90", c.irange(10, 99), "?file=", sub, "p", i, ".fmu");
                if (c.chance(25)) { // elsewhere, as a path or a URI
                    const auto f = base / "else where" / pbt::cat("p", i, ".fmu");
                    const auto fu = std::string(cosim::path_to_file_uri(f).view());
                    m.uri = "proxyfmu://localhost?file=" + (c.chance(50) ? fu : fu.substr(7));
                }
                m.refs = {m.uri};
                m.groupFile = (m.uri.find("?file=/") < m.uri.size() || m.uri.find("?file=file:") < m.uri.size() ? base / "else where" : cfgDir / sub) / (m.m->md->name + "_OspModelDescription.xml");
                if (c.chance(30)) m.groupFile = cfgDir / m.groupFile.filename();
            }
        }
        resolver->models[m.uri] = m.m;
        // its groups
        if (m.groups.empty() && c.chance(70)) {
            m.groupsWritten = false;
        } else {
            xml::el root;
            const std::string p = c.chance(15) ? "o:" : "";
            root.name = p + "OspModelDescription";
            root.attrs = {{p.empty() ? "xmlns" : "xmlns:o", "http://opensimulationplatform.com/MSMI/OSPModelDescription"}, {"version", "0.1"}};
            if (c.chance(30)) {
                auto* u = root.add(p + "UnitDefinitions")->add(p + "Unit", {{"name", "force"}});
                u->add(p + "BaseUnit", {{"kg", "1"}});
            }
            auto* vg = root.add(p + "VariableGroups");
            for (auto& g : m.groups) write_group(*vg, g, p);
            write_file(m.groupFile, xml::write_document(c, root));
        }
    }

    // --- simulators -----------------------------------------------------
    std::set<std::string> names;
    auto new_name = [&](const char* prefix) {
        auto n = gen_name(c, prefix, static_cast<int>(names.size()));
        names.insert(n);
        return n;
    };
    std::vector<sim_item> sims;
    std::map<std::string, cosim::scalar_value> wantInitial;
    for (int k = c.irange(0, 1 + c.sized(1, 5)); k > 0; --k) {
        sim_item s;
        s.name = new_name("sim");
        s.model = static_cast<int>(c.draw(models.size() - 1));
        s.source = c.pick(models[static_cast<std::size_t>(s.model)].refs);
        if (c.chance(40)) s.step = c.chance(10) ? 0.0 : gen_seconds(c, true);
        for (auto& v : models[static_cast<std::size_t>(s.model)].m->md->variables) {
            if (v.variability == variable_variability::constant || !c.chance(25)) continue;
            for (int twice = c.chance(3) ? 2 : 1; twice > 0; --twice) {
                cosim::scalar_value x;
                std::string t;
                switch (v.type) {
                    case variable_type::real: {
                        double d = c.chance(90) ? c.real() : c.one_of<double>({INFINITY, -INFINITY, NAN, 5e-324, 1.7976931348623157e308, -0.0});
                        x = d;
                        t = number(c, d);
                        break;
                    }
                    case variable_type::integer: {
                        const int n = static_cast<int>(c.integer(INT_MIN, INT_MAX));
                        x = n;
                        t = pbt::cat(n >= 0 && c.chance(10) ? "+" : "", c.chance(5) ? "  " : "", "") + (n >= 0 && c.chance(10) ? "00" : "") + std::to_string(n);
                        if (t[0] == '+' && t.size() > 1 && t[1] == ' ') t = std::to_string(n);
                        break;
                    }
                    case variable_type::boolean: {
                        const bool b = c.chance(50);
                        x = b;
                        t = b ? c.one_of<std::string>({"true", "1", " true "}) : c.one_of<std::string>({"false", "0", "false "});
                        break;
                    }
                    default: {
                        t = c.one_of<std::string>({"", "text", "a  b ", " lead", "<&>\"'", "\xc3\xb8", "\xe6\xb0\xb4\xf0\x9f\x9a\xa2", "tab\there", "line\nbreak", "cr\r.", "true", "1"});
                        x = t;
                    }
                }
                s.initial.push_back({v.name, x});
                s.initialText.push_back(t);
                wantInitial[conn_key(fname(s.name, v.name))] = x;
            }
        }
        sims.push_back(s);
    }

    // --- connections ----------------------------------------------------
    std::map<std::string, std::string> want; // target -> source
    std::set<std::string> used;
    std::vector<xml::el> connections;
    struct endpoint
    {
        std::string sim, var;
    };
    auto vars_of = [&](variable_type t, bool sources) {
        std::vector<endpoint> r;
        for (auto& s : sims) {
            for (auto& v : models[static_cast<std::size_t>(s.model)].m->md->variables) {
                if (v.type != t) continue;
                if (sources ? v.causality == variable_causality::output || v.causality == variable_causality::calculated_parameter
                            : v.causality == variable_causality::input && !used.count(conn_key(fname(s.name, v.name))))
                    r.push_back({s.name, v.name});
            }
        }
        return r;
    };
    auto connect = [&](const fname& s, const fname& t) {
        want[conn_key(t)] = conn_key(s);
        used.insert(conn_key(t));
    };
    auto var_el = [&](const char* tag, const std::string& sim, const std::string& name) {
        return std::make_shared<xml::el>(xml::el{tag, {{"simulator", sim}, {"name", name}}, {}, ""});
    };
    auto sig_el = [&](const char* tag, const std::string& fun, const std::string& name) {
        return std::make_shared<xml::el>(xml::el{tag, {{"function", fun}, {"name", name}}, {}, ""});
    };
    auto two = [&](const char* tag, xml::ptr a, xml::ptr b) {
        if (c.chance(50)) std::swap(a, b);
        connections.push_back({tag, {}, {a, b}, ""});
    };

    // variable groups first, while their variables are free
    std::set<std::string> labels;
    std::set<std::pair<std::string, std::string>> usedGroups;
    int groupConnections = 0, depthConnected = 0;
    std::function<void(const std::string&, const group&, const std::string&, const group&, int)> expand =
        [&](const std::string& sa, const group& a, const std::string& sb, const group& b, int depth) {
            depthConnected = std::max(depthConnected, depth);
            for (std::size_t i = 0; i < a.kids.size(); ++i) expand(sa, a.kids[i], sb, b.kids[i], depth + 1);
            for (std::size_t i = 0; i < a.vars.size(); ++i) {
                const fname x{sa, a.vars[i]}, y{sb, b.vars[i]};
                auto causality = [&](const std::string& sim, const std::string& var) {
                    for (auto& s : sims) {
                        if (s.name != sim) continue;
                        for (auto& v : models[static_cast<std::size_t>(s.model)].m->md->variables) {
                            if (v.name == var) return v.causality;
                        }
                    }
                    throw std::logic_error("no such variable");
                };
                if (causality(sa, a.vars[i]) == variable_causality::output) connect(x, y);
                else connect(y, x);
            }
        };
    struct gref
    {
        const sim_item* s;
        const group* g;
        const shape* sh;
        bool plus;
        int top;
    };
    auto sim_groups = [&](bool nested) {
        std::vector<gref> r;
        for (auto& s : sims) {
            auto& m = models[static_cast<std::size_t>(s.model)];
            std::vector<const group*> all;
            collect(m.groups, all);
            std::map<std::string, int> count;
            for (auto* g : all) ++count[g->name];
            std::function<void(const group&, const shape&, bool, bool)> go = [&](const group& g, const shape& sh, bool plus, bool top) {
                // a name which occurs more than once means the one at the top, if there is one
                bool isTop = false;
                for (auto& t : m.groups) isTop = isTop || t.name == g.name;
                if (top || (count[g.name] == 1 && !isTop)) r.push_back({&s, &g, &sh, plus, top});
                if (nested) {
                    for (std::size_t i = 0; i < g.kids.size(); ++i) go(g.kids[i], sh.kids[i], plus, false);
                }
            };
            for (auto& g : m.groups) go(g, shapes[static_cast<std::size_t>(g.shapeIndex)], g.plus, true);
        }
        return r;
    };
    auto any_used = [&](const std::string& sim, const group& g) {
        std::function<bool(const group&)> f = [&](const group& x) {
            for (auto& v : x.vars) {
                if (used.count(conn_key(fname(sim, v)))) return true;
            }
            for (auto& k : x.kids) {
                if (f(k)) return true;
            }
            return false;
        };
        return f(g);
    };
    for (int k = c.irange(0, 1 + c.sized(1, 4)); k > 0; --k) {
        auto gs = sim_groups(c.chance(40));
        if (gs.size() < 2) break;
        auto& a = gs[c.draw(gs.size() - 1)];
        std::vector<gref> fits;
        for (auto& b : gs) {
            if (b.sh == a.sh && b.plus != a.plus && !any_used(b.s->name, *b.g)) fits.push_back(b);
        }
        if (fits.empty() || any_used(a.s->name, *a.g)) continue;
        auto& b = fits[c.draw(fits.size() - 1)];
        if (a.s == b.s && a.g == b.g) continue;
        expand(a.s->name, *a.g, b.s->name, *b.g, 0);
        two("VariableGroupConnection", var_el("VariableGroup", a.s->name, a.g->name), var_el("VariableGroup", b.s->name, b.g->name));
        ++groupConnections;
        if (!a.top || !b.top) c.label("nested group named directly");
    }
    if (depthConnected) c.label(pbt::cat("nested groups ", depthConnected));

    // functions
    std::vector<fun_item> funs;
    int fanOut = 0;
    for (int k = c.chance(60) ? c.irange(0, 4) : 0; k > 0; --k) {
        fun_item f;
        f.kind = static_cast<int>(c.draw(2));
        f.name = "";
        std::vector<xml::el> mine;
        std::vector<std::pair<fname, fname>> links;
        bool ok = true;
        auto in_signal = [&](const std::string& signal, const fname& n) {
            auto src = vars_of(variable_type::real, true);
            if (src.empty()) {
                ok = false;
                return;
            }
            auto& s = c.pick(src);
            links.push_back({fname(s.sim, s.var), n});
            auto a = sig_el("Signal", f.name, signal), b = var_el("Variable", s.sim, s.var);
            mine.push_back({"SignalConnection", {}, {a, b}, ""});
        };
        auto out_signal = [&](const std::string& signal, const fname& n) {
            for (int m = c.chance(30) ? c.irange(2, 3) : 1; m > 0; --m) {
                auto tgt = vars_of(variable_type::real, false);
                if (tgt.empty()) {
                    ok = ok && m < 1;
                    return;
                }
                auto& t = c.pick(tgt);
                links.push_back({n, fname(t.sim, t.var)});
                used.insert(conn_key(fname(t.sim, t.var)));
                auto a = sig_el("Signal", f.name, signal), b = var_el("Variable", t.sim, t.var);
                mine.push_back({"SignalConnection", {}, {a, b}, ""});
                if (m == 1 && !ok) return;
                if (m > 1) ++fanOut;
            }
        };
        const auto savedUsed = used;
        const auto savedNames = names;
        const auto savedFan = fanOut;
        f.name = new_name("fun");
        if (f.kind == 0) {
            f.giveFactor = c.chance(70);
            f.giveOffset = c.chance(70);
            if (f.giveFactor) f.factor = c.real();
            if (f.giveOffset) f.offset = c.real();
            in_signal("in", {f.name, "in", 0, "", 0});
            if (ok) out_signal("out", {f.name, "out", 0, "", 0});
        } else if (f.kind == 1) {
            f.inputs = c.chance(94) ? c.irange(1, 4) : c.irange(5, 14);
            for (int i = 0; i < f.inputs && ok; ++i) in_signal(pbt::cat("in[", i, "]"), {f.name, "in", i, "", 0});
            if (ok) out_signal("out", {f.name, "out", 0, "", 0});
        } else {
            f.inputs = c.chance(95) ? c.irange(1, 3) : c.irange(4, 12);
            auto flat = [&](bool out, int dim) {
                std::vector<gref> r;
                for (auto& g : sim_groups(true)) {
                    if (!g.g->kids.empty() || g.g->vars.empty() || (dim && static_cast<int>(g.g->vars.size()) != dim)) continue;
                    bool good = true;
                    for (auto& [t, o] : g.sh->leaves) good = good && t == variable_type::real && (o == g.plus) == out;
                    if (good && (out || !any_used(g.s->name, *g.g))) r.push_back(g);
                }
                return r;
            };
            const auto gs = flat(true, 0);
            f.dim = gs.empty() ? (c.chance(90) ? c.irange(1, 3) : c.irange(4, 12)) : static_cast<int>(gs[c.draw(gs.size() - 1)].g->vars.size());
            for (int i = 0; i <= f.inputs && ok; ++i) {
                const bool out = i == f.inputs;
                const auto sg = out ? std::string("out") : pbt::cat("in[", i, "]");
                const auto cand = flat(!out, f.dim);
                auto signal = [&](int j) { return fname{f.name, out ? "out" : "in", out ? 0 : i, "", j}; };
                if (!cand.empty() && !c.chance(15)) {
                    auto& g = cand[c.draw(cand.size() - 1)];
                    for (int j = 0; j < f.dim; ++j) {
                        const fname v{g.s->name, g.g->vars[static_cast<std::size_t>(j)]};
                        if (out) {
                            links.push_back({signal(j), v});
                            used.insert(conn_key(v));
                        } else {
                            links.push_back({v, signal(j)});
                        }
                    }
                    mine.push_back({"SignalGroupConnection", {}, {sig_el("SignalGroup", f.name, sg), var_el("VariableGroup", g.s->name, g.g->name)}, ""});
                    labels.insert("signal groups");
                } else {
                    for (int j = 0; j < f.dim && ok; ++j) {
                        if (out) out_signal(pbt::cat("out[", j, "]"), signal(j));
                        else in_signal(pbt::cat(sg, "[", j, "]"), signal(j));
                    }
                    labels.insert("vector sum signals one by one");
                }
            }
        }
        if (!ok) {
            used = savedUsed;
            names = savedNames;
            fanOut = savedFan;
            continue;
        }
        for (auto& [s, t] : links) connect(s, t);
        for (auto& e : mine) {
            if (c.chance(50)) std::swap(e.kids[0], e.kids[1]);
            connections.push_back(e);
        }
        funs.push_back(f);
    }
    // variables
    for (int k = c.irange(0, 2 + c.sized(1, 8)); k > 0; --k) {
        const auto t = c.chance(60) ? variable_type::real : static_cast<variable_type>(c.draw(3));
        auto src = vars_of(t, true), tgt = vars_of(t, false);
        if (src.empty() || tgt.empty()) continue;
        auto& s = c.pick(src);
        auto& d = c.pick(tgt);
        connect({s.sim, s.var}, {d.sim, d.var});
        two("VariableConnection", var_el("Variable", s.sim, s.var), var_el("Variable", d.sim, d.var));
    }

    // --- times ----------------------------------------------------------
    std::optional<double> start, end, step;
    if (c.chance(50)) start = gen_seconds(c, false);
    if (c.chance(40)) end = start.value_or(0.0) + (c.chance(20) ? 0.0 : gen_seconds(c, true));
    if (end && *end > 9.1e9) end.reset();
    if (c.chance(60)) step = gen_seconds(c, true);

    // --- something wrong? -----------------------------------------------
    std::string wrong;
    const int fault = c.weighted({55, 25, 20}) == 0 ? 0 : c.irange(1, 33);
    int badSimStep = -1;
    std::string startText, endText, stepText, badSimStepText;
    auto any_sim = [&] { return sims[c.draw(sims.size() - 1)].name; };
    auto find_var = [&](std::function<bool(const variable_description&)> f) -> std::optional<endpoint> {
        std::vector<endpoint> r;
        for (auto& s : sims) {
            for (auto& v : models[static_cast<std::size_t>(s.model)].m->md->variables) {
                if (f(v)) r.push_back({s.name, v.name});
            }
        }
        if (r.empty()) return std::nullopt;
        return r[c.draw(r.size() - 1)];
    };
    auto an_output = [&] { return find_var([](auto& v) { return v.causality == variable_causality::output; }); };
    auto free_input = [&](variable_type t) -> std::optional<endpoint> {
        auto r = vars_of(t, false);
        if (r.empty()) return std::nullopt;
        return r[c.draw(r.size() - 1)];
    };
    auto real_out = [&] { return find_var([](auto& v) { return v.causality == variable_causality::output && v.type == variable_type::real; }); };
    enum
    {
        none,
        dupSim,
        dupFun,
        unknownSource
    };
    switch (fault) {
        case 1:
            if (!sims.empty()) {
                auto s = sims[c.draw(sims.size() - 1)];
                s.initial.clear();
                s.initialText.clear();
                sims.push_back(s);
                wrong = "two simulators with one name";
            }
            break;
        case 2:
            if (!funs.empty()) {
                auto f = funs[c.draw(funs.size() - 1)];
                if (c.chance(30)) f.kind = (f.kind + 1) % 3;
                funs.push_back(f);
                wrong = "two functions with one name";
            }
            break;
        case 3:
            if (!funs.empty() && !sims.empty()) {
                auto& f = funs[c.draw(funs.size() - 1)];
                const auto n = any_sim();
                for (auto& e : connections) {
                    for (auto& k : e.kids) {
                        if (auto* a = k->attr("function"); a && *a == f.name) *a = n;
                    }
                }
                f.name = n;
                wrong = "a function named like a simulator";
            }
            break;
        case 4:
            if (!sims.empty()) {
                sims[c.draw(sims.size() - 1)].source = c.one_of<std::string>({"nothing.fmu", "test:nothing", "http://x/y.fmu", "%", "a b.fmu", "", "file://otherhost/x.fmu"});
                wrong = "an unknown model";
            }
            break;
        case 5:
            if (auto v = an_output()) {
                two("VariableConnection", var_el("Variable", v->sim, v->var), var_el("Variable", "nobody", "x"));
                wrong = "a connection with an unknown simulator";
            }
            break;
        case 6:
            if (auto v = an_output()) {
                two("VariableConnection", var_el("Variable", v->sim, v->var), var_el("Variable", any_sim(), "no such variable"));
                wrong = "a connection with an unknown variable";
            }
            break;
        case 7: {
            auto a = an_output(), b = an_output();
            if (a && b) {
                two("VariableConnection", var_el("Variable", a->sim, a->var), var_el("Variable", b->sim, b->var));
                wrong = "a connection between outputs";
            }
            break;
        }
        case 8: {
            auto a = real_out();
            auto b = free_input(c.one_of<variable_type>({variable_type::integer, variable_type::boolean, variable_type::string}));
            if (a && b) {
                two("VariableConnection", var_el("Variable", a->sim, a->var), var_el("Variable", b->sim, b->var));
                wrong = "a connection between variables of different types";
            }
            break;
        }
        case 9: {
            // a second source for an input
            for (auto& e : connections) {
                if (e.name != "VariableConnection") continue;
                for (auto& k : e.kids) {
                    const fname n{*k->attr("simulator"), *k->attr("name")};
                    if (!want.count(conn_key(n)) || !wrong.empty()) continue;
                    for (auto& s : sims) {
                        if (s.name != n.entity_name) continue;
                        for (auto& v : models[static_cast<std::size_t>(s.model)].m->md->variables) {
                            if (v.name != n.variable_name) continue;
                            auto src = vars_of(v.type, true);
                            if (src.empty()) continue;
                            auto& s2 = c.pick(src);
                            if (conn_key(fname(s2.sim, s2.var)) == want[conn_key(n)]) continue;
                            wrong = "two sources for one variable";
                            two("VariableConnection", var_el("Variable", s2.sim, s2.var), var_el("Variable", n.entity_name, n.variable_name));
                            goto done9;
                        }
                    }
                }
            }
        done9:
            break;
        }
        case 10:
            if (auto v = an_output()) {
                two("SignalConnection", sig_el("Signal", "no such function", c.one_of<std::string>({"in", "out", "in[0]"})), var_el("Variable", v->sim, v->var));
                wrong = "a signal connection with an unknown function";
            }
            break;
        case 11:
            if (auto v = real_out(); v && !funs.empty()) {
                auto& f = funs[c.draw(funs.size() - 1)];
                const auto bad = f.kind == 0 ? c.one_of<std::string>({"in[0]", "", "input", "out[0]"}) : f.kind == 1 ? c.one_of<std::string>({"in", "in[-1]", "in[4]", "in[00]", "in[0][0]", "out[0]"}) : c.one_of<std::string>({"in", "in[9][0]", "out", "in[0]", "out[-1]", "out[9]"});
                two("SignalConnection", sig_el("Signal", f.name, bad), var_el("Variable", v->sim, v->var));
                wrong = "a signal connection with an unknown signal";
            }
            break;
        case 12: {
            for (auto& e : connections) {
                if (e.name != "SignalConnection" || !wrong.empty()) continue;
                for (auto& k : e.kids) {
                    if (k->name == "Signal" && k->attr("name")->substr(0, 2) == "in") {
                        auto src = vars_of(variable_type::real, true);
                        auto& s = c.pick(src);
                        const auto other = e.kids[0] == k ? e.kids[1] : e.kids[0];
                        if (s.sim == *other->attr("simulator") && s.var == *other->attr("name")) continue;
                        wrong = "two sources for one signal";
                        connections.push_back({"SignalConnection", {}, {k->copy(), var_el("Variable", s.sim, s.var)}, ""});
                        goto done12;
                    }
                }
            }
        done12:
            break;
        }
        case 13: {
            // a signal left unconnected
            for (std::size_t i = 0; i < connections.size(); ++i) {
                auto& e = connections[i];
                if (e.name.substr(0, 6) != "Signal") continue;
                auto& sg = e.kids[0]->attr("function") ? e.kids[0] : e.kids[1];
                int same = 0;
                for (auto& o : connections) {
                    for (auto& k : o.kids) {
                        if (k->attr("function") && k->attrs == sg->attrs) ++same;
                    }
                }
                if (same == 1) {
                    connections.erase(connections.begin() + static_cast<long>(i));
                    wrong = "an unconnected signal";
                    break;
                }
            }
            break;
        }
        case 14: {
            auto gs = sim_groups(true);
            if (!sims.empty()) {
                auto other = gs.empty() ? var_el("VariableGroup", any_sim(), "nor this") : var_el("VariableGroup", gs[0].s->name, gs[0].g->name);
                two("VariableGroupConnection", var_el("VariableGroup", any_sim(), "no such group"), other);
                wrong = "a connection with an unknown variable group";
            }
            break;
        }
        case 15: {
            auto gs = sim_groups(false);
            if (!gs.empty()) {
                two("VariableGroupConnection", var_el("VariableGroup", gs[0].s->name, gs[0].g->name), var_el("VariableGroup", "nobody", gs[0].g->name));
                wrong = "a group connection with an unknown simulator";
            }
            break;
        }
        case 16: {
            // groups of different sizes
            auto gs = sim_groups(true);
            for (auto& a : gs) {
                for (auto& b : gs) {
                    if (!wrong.empty() || any_used(a.s->name, *a.g) || any_used(b.s->name, *b.g)) continue;
                    if (a.g->kids.size() != b.g->kids.size() || a.g->vars.size() != b.g->vars.size()) {
                        two("VariableGroupConnection", var_el("VariableGroup", a.s->name, a.g->name), var_el("VariableGroup", b.s->name, b.g->name));
                        wrong = "a connection between groups of different sizes";
                    }
                }
            }
            break;
        }
        case 17: {
            auto gs = sim_groups(false);
            if (!gs.empty()) {
                two("SignalGroupConnection", sig_el("SignalGroup", "no such function", "in[0]"), var_el("VariableGroup", gs[0].s->name, gs[0].g->name));
                wrong = "a signal group connection with an unknown function";
            }
            break;
        }
        case 18:
            for (auto& f : funs) {
                auto gs = sim_groups(false);
                if (!wrong.empty() || gs.empty()) continue;
                two("SignalGroupConnection", sig_el("SignalGroup", f.name, c.one_of<std::string>({"in[7]", "in", "out[0]", "x"})), var_el("VariableGroup", gs[0].s->name, gs[0].g->name));
                wrong = "a signal group connection with an unknown signal group";
            }
            break;
        case 19: {
            // a group which does not fit the signal group
            for (auto& e : connections) {
                if (e.name != "SignalGroupConnection" || !wrong.empty()) continue;
                auto& vg = e.kids[0]->attr("simulator") ? e.kids[0] : e.kids[1];
                const fun_item* f = nullptr;
                for (auto& x : funs) {
                    if (x.name == *(e.kids[0]->attr("function") ? e.kids[0] : e.kids[1])->attr("function")) f = &x;
                }
                // preferably one that has the right number of variables, besides other groups
                auto candidates = sim_groups(true);
                std::stable_partition(candidates.begin(), candidates.end(), [&](auto& g) { return static_cast<int>(g.g->vars.size()) == f->dim; });
                for (auto& g : candidates) {
                    if (!wrong.empty() || (static_cast<int>(g.g->vars.size()) == f->dim && g.g->kids.empty())) continue;
                    *vg->attr("simulator") = g.s->name;
                    *vg->attr("name") = g.g->name;
                    wrong = "a variable group of the wrong size for a signal group";
                }
            }
            break;
        }
        case 20:
            if (!sims.empty()) {
                auto& s = sims[c.draw(sims.size() - 1)];
                s.initial.push_back({"no such variable", 1.0});
                s.initialText.push_back("1");
                wrong = "an initial value for an unknown variable";
            }
            break;
        case 21:
        case 22:
            if (!sims.empty()) {
                auto& s = sims[c.draw(sims.size() - 1)];
                for (auto& v : models[static_cast<std::size_t>(s.model)].m->md->variables) {
                    if (!wrong.empty()) continue;
                    if (fault == 21 && v.type != variable_type::integer) {
                        s.initial.push_back({v.name, 1});
                        s.initialText.push_back("1");
                        wrong = "an initial value of the wrong type";
                    } else if (fault == 22 && v.variability == variable_variability::constant && v.type == variable_type::integer) {
                        s.initial.push_back({v.name, 1});
                        s.initialText.push_back("1");
                        wrong = "an initial value for a constant";
                    }
                }
            }
            break;
        case 23:
            stepText = c.one_of<std::string>({"0", "-0.1", "NaN", "INF", "-INF", "1e300", "1e-30", "x", "1e10", "", "-0", "-1e-12", "1e400", "9223372036.854776"});
            wrong = "base step size " + stepText;
            break;
        case 24:
            startText = c.one_of<std::string>({"NaN", "INF", "-INF", "1e300", "-1e11", "x", "1e10", "0x10", "1e400", "9223372036.854776", "-9223372036.854777"});
            wrong = "start time " + startText;
            break;
        case 25:
            endText = c.one_of<std::string>({"NaN", "INF", "1e300", "-INF", "x", "", "1e10", "1e400", "9223372036.854776"});
            wrong = "end time " + endText;
            break;
        case 26:
            start = 2.0;
            end = c.one_of<double>({1.999, -1.0, 0.0});
            wrong = "end before start";
            break;
        case 27:
            if (!sims.empty()) {
                badSimStep = static_cast<int>(c.draw(sims.size() - 1));
                badSimStepText = c.one_of<std::string>({"NaN", "INF", "1e300", "x", "1e11", "-1e300", "-INF", "9223372036.854776"});
                wrong = "simulator step size " + badSimStepText;
            }
            break;
        default: break;
    }

    // (the file is damaged when everything else has been made)
    gmodel* cut = nullptr;
    if (fault == 28 && !sims.empty()) {
        auto& m = models[static_cast<std::size_t>(sims[c.draw(sims.size() - 1)].model)];
        if (m.groupsWritten) {
            cut = &m;
            wrong = "an incomplete description of variable groups";
        }
    }
    // --- the document ---------------------------------------------------
    const std::string p = c.chance(20) ? c.one_of<std::string>({"osp:", "a:"}) : "";
    xml::el root;
    root.name = p + "OspSystemStructure";
    root.attrs = {{p.empty() ? "xmlns" : "xmlns:" + p.substr(0, p.size() - 1), NS}, {"version", "0.1"}};
    bool emptyStart = false;
    if (!startText.empty() || start) root.add(p + "StartTime", {}, startText.empty() ? number(c, *start) : startText);
    else if (c.chance(5)) {
        root.add(p + "StartTime");
        emptyStart = true;
    }
    if (wrong.substr(0, 3) == "end" && fault == 25) root.add(p + "EndTime", {}, endText);
    else if (end) root.add(p + "EndTime", {}, number(c, *end));
    if (fault == 23) root.add(p + "BaseStepSize", {}, stepText);
    else if (step) root.add(p + "BaseStepSize", {}, number(c, *step));
    if (c.chance(40)) root.add(p + "Algorithm", {}, c.one_of<std::string>({"fixedStep", "", "other"}));
    auto* se = root.add(p + "Simulators");
    for (std::size_t i = 0; i < sims.size(); ++i) {
        auto& s = sims[i];
        auto* e = se->add(p + "Simulator", {{"name", s.name}, {"source", s.source}});
        if (static_cast<int>(i) == badSimStep) e->attrs.push_back({"stepSize", badSimStepText});
        else if (s.step) e->attrs.push_back({"stepSize", number(c, *s.step)});
        if (!s.initial.empty() || c.chance(10)) {
            auto* iv = e->add(p + "InitialValues");
            for (std::size_t k = 0; k < s.initial.size(); ++k) {
                const char* const tags[] = {"Real", "Integer", "Boolean", "String"};
                const auto idx = std::visit([](auto& x) {
                    using T = std::decay_t<decltype(x)>;
                    return std::is_same_v<T, double> ? 0 : std::is_same_v<T, int> ? 1 : std::is_same_v<T, bool> ? 2 : 3;
                },
                    s.initial[k].second);
                iv->add(p + "InitialValue", {{"variable", s.initial[k].first}})->add(p + tags[idx], {{"value", s.initialText[k]}});
            }
        }
        c.shuffle(e->attrs);
    }
    if (!funs.empty() || c.chance(10)) {
        auto* fe = root.add(p + "Functions");
        for (int kind = 0; kind < 3; ++kind) {
            for (auto& f : funs) {
                if (f.kind != kind) continue;
                auto* e = fe->add(p + (kind == 0 ? "LinearTransformation" : kind == 1 ? "Sum" : "VectorSum"), {{"name", f.name}});
                if (kind == 0 && f.giveFactor) e->attrs.push_back({"factor", number(c, f.factor)});
                if (kind == 0 && f.giveOffset) e->attrs.push_back({"offset", number(c, f.offset)});
                if (kind > 0) e->attrs.push_back({"inputCount", std::to_string(f.inputs)});
                if (kind > 1) e->attrs.push_back({"dimension", std::to_string(f.dim)});
                c.shuffle(e->attrs);
            }
        }
    }
    c.shuffle(connections);
    if (!connections.empty() || c.chance(5)) {
        auto* ce = root.add(p + "Connections");
        for (auto& e : connections) {
            auto k = e.copy();
            k->name = p + k->name;
            for (auto& x : k->kids) x->name = p + x->name;
            ce->kids.push_back(k);
        }
    }
    if (cut) {
        std::string t;
        {
            std::ifstream f(cut->groupFile, std::ios::binary);
            t.assign(std::istreambuf_iterator<char>(f), {});
        }
        t.resize(c.draw(t.rfind("</")));
        write_file(cut->groupFile, t);
    }
    bool crashOnly = false;
    if (fault >= 29 && wrong.empty()) {
        // violations of the schema
        auto all = [&](const char* n) { return xml::find(root, p + n); };
        auto on = [&](const char* n, std::function<void(xml::el&)> f, const std::string& what) {
            auto v = all(n);
            if (v.empty()) return;
            f(*v[c.draw(v.size() - 1)]);
            wrong = what + " " + n;
        };
        switch (c.draw(17)) {
            case 0: root.drop("version"); wrong = "no version"; break;
            case 1: *root.attr("version") = c.one_of<std::string>({"0.2", "1.0", ""}); wrong = "another version"; break;
            case 2: *root.attr(p.empty() ? "xmlns" : "xmlns:" + p.substr(0, p.size() - 1)) = "http://example.org/other"; wrong = "another namespace"; break;
            case 3:
                for (auto it = root.kids.begin(); it != root.kids.end(); ++it) {
                    if ((*it)->name == p + "Simulators") {
                        root.kids.erase(it);
                        break;
                    }
                }
                wrong = "no simulators element";
                break;
            case 4: root.add(p + "Simulators"); wrong = "simulators at the end"; break;
            case 5: on(c.one_of<const char*>({"Simulator", "Functions", "Connections", "Simulators", "InitialValue", "VariableConnection", "OspSystemStructure"}), [&](xml::el& e) { e.add(p + c.one_of<std::string>({"Bogus", "Simulation"})); }, "an unknown element in"); break;
            case 6: on(c.one_of<const char*>({"Simulator", "Variable", "VariableGroup"}), [&](xml::el& e) { e.drop("name"); }, "no name in"); break;
            case 7: on("Simulator", [&](xml::el& e) { e.drop("source"); }, "no source in"); break;
            case 8: on(c.one_of<const char*>({"Variable", "VariableGroup"}), [&](xml::el& e) { e.drop("simulator"); }, "no simulator in"); break;
            case 9: on(c.one_of<const char*>({"Signal", "SignalGroup"}), [&](xml::el& e) { e.drop(c.one_of<std::string>({"function", "name"})); }, "an attribute missing in"); break;
            case 10: on("InitialValue", [&](xml::el& e) { if (c.chance(50)) e.kids.clear(); else e.kids.push_back(e.kids[0]->copy()); }, "not one value in"); break;
            case 11: on(c.one_of<const char*>({"Real", "Integer", "Boolean"}), [&](xml::el& e) { *e.attr("value") = c.one_of<std::string>({"", "x", "1.5.5", "TRUE", "0x1"}); }, "a bad value in"); break;
            case 12: on(c.one_of<const char*>({"Sum", "VectorSum"}), [&](xml::el& e) { *e.attr(e.attr("dimension") && c.chance(50) ? "dimension" : "inputCount") = c.one_of<std::string>({"0", "-1", "x", "1.0", ""}); }, "a bad count in"); break;
            case 13: on(c.one_of<const char*>({"Simulator", "Variable", "Real", "VariableConnection", "LinearTransformation"}), [&](xml::el& e) { e.attrs.push_back({"bogus", "1"}); }, "an unknown attribute in"); break;
            case 14: on(c.one_of<const char*>({"VariableConnection", "VariableGroupConnection"}), [&](xml::el& e) { if (c.chance(50)) e.kids.pop_back(); else e.kids.push_back(e.kids[0]->copy()); }, "not two ends in"); break;
            case 15: on(c.one_of<const char*>({"SignalConnection", "SignalGroupConnection"}), [&](xml::el& e) { if (c.chance(50)) e.kids.pop_back(); else e.kids.push_back(e.kids[c.draw(1)]->copy()); }, "not two ends in"); break;
            case 16: on("Real", [&](xml::el& e) { e.name = p + c.one_of<std::string>({"Enumeration", "Float64"}); }, "an unknown type instead of"); break;
            case 17: on("LinearTransformation", [&](xml::el& e) { e.drop(c.one_of<std::string>({"factor"})); e.attrs.push_back({"factor", "x"}); }, "a bad factor in"); break;
        }
    }
    const int noise = c.weighted({80, 12, 8});
    if (noise == 1) {
        for (int k = c.irange(1, 2); k > 0; --k) xml::mutate(c, root);
        crashOnly = true;
    }
    auto text = xml::write_document(c, root);
    if (noise == 2) {
        xml::damage(c, text);
        crashOnly = true;
    }
    if (!crashOnly && wrong.empty() && c.chance(2)) {
        text = c.one_of<std::string>({"", " ", "<a/>", "no xml at all"});
        wrong = "no such document";
    }
    c.note(text);
    bool noFile = false;
    if (!crashOnly && wrong.empty() && c.chance(2)) {
        noFile = true;
        wrong = "no file";
    }
    if (!noFile) write_file(cfgFile, text);
    // damaged descriptions of variable groups
    if (c.chance(6)) {
        for (auto& m : models) {
            if (!m.groupsWritten) continue;
            std::string t;
            {
                std::ifstream f(m.groupFile, std::ios::binary);
                t.assign(std::istreambuf_iterator<char>(f), {});
            }
            if (c.chance(30)) t = c.one_of<std::string>({"", "<x/>", "<OspModelDescription/>", "<OspModelDescription><VariableGroups/></OspModelDescription>", "nonsense"});
            else xml::damage(c, t);
            write_file(m.groupFile, t);
            crashOnly = true;
        }
    }

    // --- load -----------------------------------------------------------
    cosim::model_uri_resolver r;
    if (c.chance(20)) r.add_sub_resolver(std::make_shared<map_resolver>());
    r.add_sub_resolver(resolver);
    fs::path arg = cfgFile;
    bool moved = false;
    if (cfgName == "OspSystemStructure.xml" && c.chance(50)) arg = cfgDir;
    if (c.chance(15) && !noFile) {
        if (::chdir(base.c_str())) throw std::runtime_error("harness: chdir");
        moved = true;
        arg = fs::relative(arg, base);
        c.label("relative path");
    }
    std::optional<cosim::osp_config> got;
    std::string error;
    try {
        got = cosim::load_osp_config(arg, r);
    } catch (const std::exception& e) {
        error = e.what();
        if (error.empty()) error = "(no message)";
    } catch (...) {
        pbt::fail("exception-type", "loading fails with something that is not a std::exception");
    }
    if (moved && ::chdir("/")) throw std::runtime_error("harness: chdir");
    if (crashOnly) {
        c.label(got ? "mutated: loaded" : "mutated: refused");
        if (!got) return;
        // whatever it is, it must be consistent
        for (auto conn : got->system_structure.connections()) {
            PBT_REQUIRE("dangling", got->system_structure.find_entity(conn.source.entity_name) && got->system_structure.find_entity(conn.target.entity_name), "a connection refers to an entity that does not exist");
        }
        PBT_REQUIRE("step-size", got->step_size > duration::zero(), "the step size is not positive");
        PBT_REQUIRE("time", !got->end_time || *got->end_time >= got->start_time, "the end is before the start");
        return;
    }
    if (!wrong.empty()) {
        c.label(fault >= 29 ? "refused: schema" : "refused: contents");
        if (sims.size() > 1) c.nontrivial();
        PBT_REQUIRE("accepted", !got, "loaded without an error, despite ", wrong);
        return;
    }
    PBT_REQUIRE("refused", got, "a valid configuration is refused: ", error);

    // --- compare --------------------------------------------------------
    const auto& ss = got->system_structure;
    std::set<std::string> seen;
    for (auto& e : ss.entities()) seen.insert(e.name);
    PBT_REQUIRE("entities", seen == names, "the system has ", seen.size(), " entities, expected ", names.size());
    for (auto& s : sims) {
        const auto* e = ss.find_entity(s.name);
        PBT_REQUIRE("simulator", e, "simulator ", pbt::quote(s.name), " is missing");
        const auto m = cosim::entity_type_to<cosim::model>(e->type);
        PBT_REQUIRE("simulator-model", m == models[static_cast<std::size_t>(s.model)].m, "simulator ", pbt::quote(s.name), " has the wrong model");
        PBT_REQUIRE("simulator-step", close(e->step_size_hint.count(), s.step.value_or(0.0)), "simulator ", pbt::quote(s.name), " has step size ", e->step_size_hint.count(), " ns, expected ", s.step.value_or(0.0), " s");
    }
    for (auto& f : funs) {
        const auto* e = ss.find_entity(f.name);
        PBT_REQUIRE("function", e, "function ", pbt::quote(f.name), " is missing");
        const auto t = cosim::entity_type_to<cosim::function_type>(e->type);
        PBT_REQUIRE("function-type", t && (f.kind == 0 ? !!std::dynamic_pointer_cast<cosim::linear_transformation_function_type>(t) : !!std::dynamic_pointer_cast<cosim::vector_sum_function_type>(t)), "function ", pbt::quote(f.name), " has the wrong type");
        auto param = [&](int i) {
            const auto it = e->parameter_values.find(i);
            return it == e->parameter_values.end() ? t->description().parameters.at(static_cast<std::size_t>(i)).default_value : it->second;
        };
        if (f.kind == 0) {
            PBT_REQUIRE("function-parameter", param(0) == cosim::function_parameter_value(f.offset) && param(1) == cosim::function_parameter_value(f.factor), "linear transformation ", pbt::quote(f.name), " has offset ", std::get<double>(param(0)), " and factor ", std::get<double>(param(1)), ", expected ", f.offset, " and ", f.factor);
        } else {
            PBT_REQUIRE("function-parameter", param(0) == cosim::function_parameter_value(f.inputs) && param(1) == cosim::function_parameter_value(variable_type::real) && param(2) == cosim::function_parameter_value(f.dim), "sum ", pbt::quote(f.name), " has ", std::get<int>(param(0)), " inputs of dimension ", std::get<int>(param(2)), ", expected ", f.inputs, " of ", f.dim);
        }
    }
    std::map<std::string, std::string> have;
    for (auto conn : ss.connections()) have[conn_key(conn.target)] = conn_key(conn.source);
    for (auto& [t, s] : want) {
        PBT_REQUIRE("connection-missing", have.count(t), "no connection to ", t, " (expected one from ", s, ")");
        PBT_REQUIRE("connection", have[t] == s, t, " is connected to ", have[t], ", expected ", s);
    }
    for (auto& [t, s] : have) PBT_REQUIRE("connection-extra", want.count(t), "an unexpected connection from ", s, " to ", t);
    PBT_REQUIRE("initial-count", got->initial_values.size() == wantInitial.size(), got->initial_values.size(), " initial values, expected ", wantInitial.size());
    for (auto& [n, v] : got->initial_values) {
        const auto it = wantInitial.find(conn_key(n));
        PBT_REQUIRE("initial-extra", it != wantInitial.end(), "an initial value for ", conn_key(n));
        bool same = v == it->second;
        if (v.index() == it->second.index() && std::holds_alternative<double>(v)) {
            const double a = std::get<double>(v), b = std::get<double>(it->second);
            same = (std::isnan(a) && std::isnan(b)) || (a == b && std::signbit(a) == std::signbit(b));
        }
        PBT_REQUIRE("initial-value", same, "the initial value of ", conn_key(n), " is not the one given");
    }
    PBT_REQUIRE("start-time", close(got->start_time.time_since_epoch().count(), start.value_or(0.0)), "start time ", got->start_time.time_since_epoch().count(), " ns, expected ", start.value_or(0.0), " s");
    PBT_REQUIRE("end-time", got->end_time.has_value() == end.has_value() && (!end || close(got->end_time->time_since_epoch().count(), *end)), "wrong end time, expected ", end ? *end : -1.0);
    PBT_REQUIRE("step-size", close(got->step_size.count(), step.value_or(0.1)), "step size ", got->step_size.count(), " ns, expected ", step.value_or(0.1), " s");

    if (sims.size() > 1 && !want.empty()) c.nontrivial();
    if (!p.empty()) c.label("prefixed");
    if (fanOut) c.label("function fan-out");
    if (groupConnections) c.label("group connections");
    for (auto& l : labels) c.label(l);
    if (!wantInitial.empty()) c.label("initial values");
    if (emptyStart) c.label("empty StartTime");
}
} // namespace

int main(int argc, char** argv)
{
    pbt::spec s;
    s.id = "C20";
    s.rule = "a case is a generated OSP system structure document, with models and variable group descriptions, in generated directories; valid, with one fault, or mutated; "
             "non-trivial: at least two simulators and (when valid) at least one connection";
    s.quick_cases = 14000;
    s.thorough_cases = 220000;
    s.run = run;
    s.hang_seconds = 60;
    return pbt::main(argc, argv, s);
}
