// C21: an SSP system description loads to precisely the system it describes.
#include "structure.hpp"
#include "fmu_stub.hpp"
#include "xml.hpp"
#include "zipfile.hpp"

#include <cosim/execution.hpp>
#include <cosim/ssp/ssp_loader.hpp>
#include <cosim/uri.hpp>

#include <boost/log/core.hpp>

#include <cmath>
#include <filesystem>
#include <fstream>
#include <limits>
#include <set>
#include <thread>
#include <unistd.h>

using namespace structure;
namespace fs = std::filesystem;
std::unique_ptr<cosim::function> gen_function_type::instantiate(const cosim::function_parameter_value_map&) { throw std::logic_error("not used"); }

namespace
{
using fname = cosim::full_variable_name;
using cosim::variable_description;

class plain_model : public cosim::model
{
public:
    std::shared_ptr<cosim::model_description> md = std::make_shared<cosim::model_description>();
    std::shared_ptr<const cosim::model_description> description() const noexcept override { return md; }
    std::shared_ptr<cosim::slave> instantiate(std::string_view) override { throw std::logic_error("not to be instantiated"); }
};

struct gmodel
{
    std::shared_ptr<plain_model> m = std::make_shared<plain_model>();
    std::string key; // the last segment of its URIs, or an entire URI
    std::string resource; // where in the archive or directory it is, if anywhere
    std::vector<std::string> refs; // what may be written in a document
};

/// Knows models by the ends of their URIs, and keeps a record.
class key_resolver : public cosim::model_uri_sub_resolver
{
public:
    std::map<std::string, const gmodel*> models;
    std::vector<std::pair<const gmodel*, std::string>> asked;
    std::string missing; // contents that were not found
    using cosim::model_uri_sub_resolver::lookup_model;
    std::shared_ptr<cosim::model> lookup_model(const cosim::uri& u) override
    {
        const std::string v(u.view());
        auto it = models.find(v);
        if (it == models.end()) it = models.find(v.substr(v.rfind('/') + 1));
        if (it == models.end()) return nullptr;
        asked.emplace_back(it->second, v);
        if (!it->second->resource.empty()) {
            std::ifstream f(cosim::file_uri_to_path(u), std::ios::binary);
            std::string t(std::istreambuf_iterator<char>(f), {});
            if (!f || t != "contents of " + it->second->key) missing = v;
        }
        return it->second->m;
    }
};

std::string gen_name(pbt::test_case& c, const char* prefix, int n)
{
    switch (c.weighted({70, 15, 10, 5})) {
        case 0: return pbt::cat(prefix, n);
        case 1: return pbt::cat(c.one_of<std::string>({"p.", "p", "v", "p.p.", "a b", "p[1].x", "d<e&f", "\"q\"'s", "\xc3\xb8re", "\xe6\xb0\xb4", "x:y", "--", "in", "]]>", "\xf0\x9f\x9a\xa2", "<xmlattr>", "."}), prefix, n);
        case 2: return pbt::cat(prefix, n, c.one_of<std::string>({" ", "\xc3\xa5", ".y", "[2]", "  z", "\t", "\n"}));
        default: return pbt::cat(prefix, n, "_", std::string(static_cast<std::size_t>(c.irange(1, 300)), 'n'));
    }
}

std::string number(pbt::test_case& c, double x)
{
    char b[64];
    switch (c.draw(2)) {
        case 0: std::snprintf(b, sizeof b, "%.17g", x); break;
        case 1: std::snprintf(b, sizeof b, "%.17e", x); break;
        default: std::snprintf(b, sizeof b, "%s%.17G", !std::signbit(x) ? "+" : "", x); break;
    }
    std::string r = b;
    if (c.chance(5)) r = " \n" + r + "  ";
    return r;
}

bool close(std::int64_t ns, double seconds)
{
    const long double want = static_cast<long double>(seconds) * 1e9L;
    const long double tol = std::max(1.01L, std::abs(want) * 1e-15L);
    return std::abs(static_cast<long double>(ns) - want) <= tol;
}

double gen_seconds(pbt::test_case& c, bool positive)
{
    switch (c.weighted({40, 30, 20, 10})) {
        case 0: return c.irange(positive ? 1 : 0, 1000) / 100.0;
        case 1: return static_cast<double>(c.range(positive ? 1 : 0, 2000000000000ll)) * 1e-9;
        case 2: return c.one_of<double>({1e-4, 2.03e-4, 2e-9, 0.5, 3600.0, 1e6, 9e9});
        default: return positive ? 1.0 : -c.irange(0, 1000) / 8.0;
    }
}

void write_file(const fs::path& p, const std::string& t)
{
    fs::create_directories(p.parent_path());
    std::ofstream f(p, std::ios::binary);
    f << t;
    if (!f.flush()) throw std::runtime_error("harness: cannot write " + p.string());
}

std::string key(const fname& n) { return pbt::cat(pbt::quote(n.entity_name), pbt::quote(n.variable_group_name), n.variable_group_instance, pbt::quote(n.variable_name), n.variable_instance); }

bool same_value(const cosim::scalar_value& a, const cosim::scalar_value& b)
{
    if (a != b) return false;
    return !std::holds_alternative<double>(a) || std::signbit(std::get<double>(a)) == std::signbit(std::get<double>(b));
}

std::string show(const cosim::scalar_value& v)
{
    return std::visit([](auto& x) { return pbt::cat(x); }, v);
}

struct parameter
{
    std::string name;
    cosim::scalar_value value;
    std::string text;
};

struct binding
{
    std::string set, prefix, source; // source is empty if it is inline
    std::string file;
    std::vector<parameter> parameters; // full names
};

struct component
{
    std::string name, source;
    int model;
    std::optional<double> step;
    std::vector<std::string> connectors; // as listed
    std::vector<binding> bindings;
};

const char* const TYPES[] = {"Real", "Integer", "Boolean", "String"};

parameter gen_parameter(pbt::test_case& c, const std::string& name, variable_type t)
{
    parameter p;
    p.name = name;
    switch (t) {
        case variable_type::real: {
            const double d = c.chance(90) ? c.real() : c.one_of<double>({5e-324, 1.7976931348623157e308, -0.0});
            p.value = d;
            p.text = number(c, d);
            break;
        }
        case variable_type::integer: {
            const int n = static_cast<int>(c.integer(INT_MIN, INT_MAX));
            p.value = n;
            p.text = (n >= 0 && c.chance(10) ? "+" : "") + std::to_string(n);
            if (c.chance(5)) p.text = " " + p.text + "\n";
            break;
        }
        case variable_type::boolean: {
            const bool b = c.chance(50);
            p.value = b;
            p.text = b ? c.one_of<std::string>({"true", "1", " true "}) : c.one_of<std::string>({"false", "0", "false "});
            break;
        }
        default:
            p.text = c.one_of<std::string>({"", "text", "  two  words ", "\xc3\xa6\xc3\xb8\xc3\xa5", "<tag attr=\"x\">&amp;", "line\nbreak\ttab", "1"}) + (c.chance(10) ? std::string(2000, 's') : "");
            p.value = p.text;
    }
    return p;
}

/// The directories in a place, to notice those that are left behind.
std::set<std::string> listing(const fs::path& p)
{
    std::set<std::string> r;
    for (auto& e : fs::directory_iterator(p)) r.insert(e.path().filename());
    return r;
}

int threads()
{
    int n = 0;
    for (auto& e : fs::directory_iterator("/proc/self/task")) {
        (void)e;
        ++n;
    }
    return n;
}

void run(pbt::test_case& c)
{
    boost::log::core::get()->set_logging_enabled(false);
    const fs::path base = fs::path(pbt::scratch()) / "c21";
    fs::remove_all(base);
    const fs::path tmp = base / "tmp";
    fs::create_directories(tmp);
    ::setenv("TMPDIR", tmp.c_str(), 1);

    // --- where things are -------------------------------------------------
    const bool archive = c.chance(30);
    const auto dirName = c.chance(70) ? std::string("cfg") : c.one_of<std::string>({"c f g", "c#g", "c%20g", "c\xc3\xb8g", "c?g", "unpacked.ssp", "c&g", "c.g", "c%g"});
    const fs::path cfgDir = base / dirName;
    const bool customName = c.chance(25);
    const auto stem = customName ? c.one_of<std::string>({"Other", "My System", "v1.2", "\xc3\xa6", "a#b", "SystemStructure2", "50%"}) : std::string("SystemStructure");
    const auto ssdName = stem + ".ssd";
    fs::create_directories(cfgDir);
    // The file URI of the document, where that is known.
    const auto ssdUri = cosim::path_to_file_uri(cfgDir / ssdName);

    std::map<std::string, std::string> files; // relative to the configuration

    // --- models -------------------------------------------------------------
    std::vector<gmodel> models(static_cast<std::size_t>(c.irange(1, 3)));
    auto resolver = std::make_shared<key_resolver>();
    for (std::size_t i = 0; i < models.size(); ++i) {
        auto& m = models[i];
        m.m->md->name = c.chance(30) ? "Model" : pbt::cat("Model", i);
        m.m->md->uuid = pbt::cat("uuid-", i);
        const int n = c.irange(2, 12);
        for (int k = 0; k < n; ++k) {
            const auto t = c.chance(60) ? variable_type::real : static_cast<variable_type>(c.draw(3));
            const auto ca = c.one_of<variable_causality>({variable_causality::output, variable_causality::input, variable_causality::parameter, variable_causality::calculated_parameter, variable_causality::local});
            auto va = ca == variable_causality::parameter || ca == variable_causality::calculated_parameter ? c.one_of<variable_variability>({variable_variability::tunable, variable_variability::fixed}) : variable_variability::discrete;
            if (ca == variable_causality::input && c.chance(3)) va = variable_variability::constant;
            m.m->md->variables.push_back({(c.chance(20) ? "p." : "") + gen_name(c, "v", k), static_cast<cosim::value_reference>(k), t, ca, va, std::nullopt});
        }
        switch (c.weighted({60, 20, 20})) {
            case 0: {
                const auto sub = c.one_of<std::string>({"", "resources/", "a%20b/", "./", "resources/../resources/"});
                m.key = c.one_of<std::string>({"m", "m%20n", "m.x"}) + std::to_string(i) + ".fmu";
                const auto decoded = cosim::percent_decode(sub + m.key);
                m.refs = {sub + m.key};
                m.resource = fs::path(decoded).lexically_normal().string();
                if (sub.find("..") != std::string::npos) files["resources/x"] = "";
                files[m.resource] = "contents of " + m.key;
                if (!archive) m.refs.push_back(std::string(cosim::resolve_reference(ssdUri, cosim::uri(sub + m.key)).view()));
                break;
            }
            case 1:
                m.key = pbt::cat("test:model", i);
                m.refs = {m.key};
                break;
            default:
                m.key = pbt::cat("proxyfmu://localhost:90", c.irange(10, 99), "?file=p", i, ".fmu");
                m.refs = {m.key};
        }
        resolver->models[m.key] = &m;
    }
    auto& MD = models;
    auto var = [&](const component& k, const std::string& n) -> const variable_description& {
        for (auto& v : MD[static_cast<std::size_t>(k.model)].m->md->variables) {
            if (v.name == n) return v;
        }
        throw std::logic_error("harness: no variable " + n);
    };

    // --- components -------------------------------------------------------
    std::vector<component> comps;
    std::map<std::string, std::map<std::string, cosim::scalar_value>> wantSets;
    wantSets[""];
    int fileCounter = 0;
    bool skipped = false, external = false, prefixed = false;
    std::vector<xml::ptr> ssvRoots;
    std::vector<std::string> ssvFiles;
    for (int k = c.irange(0, 1 + c.sized(1, 5)); k > 0; --k) {
        component s;
        s.name = gen_name(c, "comp", static_cast<int>(comps.size()));
        s.model = static_cast<int>(c.draw(models.size() - 1));
        s.source = c.pick(models[static_cast<std::size_t>(s.model)].refs);
        if (c.chance(40)) s.step = c.chance(10) ? 0.0 : gen_seconds(c, true);
        const auto& vars = models[static_cast<std::size_t>(s.model)].m->md->variables;
        for (auto& v : vars) {
            if (c.chance(80)) s.connectors.push_back(v.name);
        }
        c.shuffle(s.connectors);
        for (int b = c.chance(50) ? 0 : c.irange(1, 3); b > 0; --b) {
            binding bd;
            bd.set = c.chance(80) ? c.one_of<std::string>({"initialValues", "set1", "set2", "set 3", "s\xc3\xa6t"}) : gen_name(c, "ps", b);
            if (c.chance(15)) bd.prefix = c.one_of<std::string>({"p.", "v", "p", "nope."});
            const bool first = s.bindings.empty();
            auto apply = [&](const std::string& n, const cosim::scalar_value& x) {
                wantSets[bd.set][key(fname(s.name, n))] = x;
                if (first) wantSets[""][key(fname(s.name, n))] = x;
            };
            wantSets[bd.set];
            for (auto& v : vars) {
                if (!c.chance(35)) continue;
                if (v.name.compare(0, bd.prefix.size(), bd.prefix) != 0) continue;
                auto p = gen_parameter(c, v.name, v.type);
                const bool settable = (v.causality == variable_causality::parameter || v.causality == variable_causality::input) && v.variability != variable_variability::constant;
                bool ok = settable;
                if (c.chance(5)) { // of another type
                    const auto t = static_cast<variable_type>((static_cast<int>(v.type) + 1 + static_cast<int>(c.draw(2))) % 4);
                    p = gen_parameter(c, v.name, t);
                    ok = false;
                }
                if (ok) apply(p.name, p.value);
                else skipped = true;
                bd.parameters.push_back(p);
                if (c.chance(3)) { // given twice
                    auto again = gen_parameter(c, v.name, v.type);
                    if (settable) apply(again.name, again.value);
                    bd.parameters.push_back(again);
                }
            }
            if (c.chance(10)) { // a parameter the model doesn't have
                const auto n = bd.prefix + c.one_of<std::string>({"unknown", "", "V0", "no such"});
                bool has = false;
                for (auto& v : vars) has |= v.name == n;
                if (!has) {
                    bd.parameters.push_back(gen_parameter(c, n, variable_type::real));
                    skipped = true;
                }
            }
            if (!bd.prefix.empty()) prefixed = true;
            if (c.chance(40)) {
                const auto enc = c.one_of<std::string>({"values", "sub/values", "my%20values", "%C3%A6", "../values", "./v", "sub/../v", "v.w"}) + std::to_string(fileCounter++) + ".ssv";
                if (!archive || enc.find("../v") != 0) {
                    bd.file = cosim::percent_decode(enc);
                    bd.source = enc;
                    if (c.chance(20)) bd.source = bd.file; // not encoded, which is tolerated
                    if (!archive && c.chance(15)) bd.source = std::string(cosim::resolve_reference(ssdUri, cosim::uri(enc)).view());
                    if (enc.find("sub/..") == 0) files["sub/x"] = "";
                    if (c.chance(12)) { // a name which means something else as a URI reference
                        bd.file = bd.source = std::to_string(fileCounter++) + c.one_of<std::string>({"50%25", "a#b", "a?b", "%zz", "a b", "a#b#c", "100%", "%41"}) + ".ssv";
                        if (c.chance(15)) bd.file = bd.source = "x:" + bd.file;
                    }
                    external = true;
                }
            }
            s.bindings.push_back(bd);
        }
        comps.push_back(s);
    }
    const int elements = static_cast<int>(comps.size());

    // --- connections ------------------------------------------------------
    struct connection
    {
        int from, to;
        std::string out, in;
        bool linear = false, giveFactor = false, giveOffset = false;
        double factor = 1, offset = 0;
    };
    std::vector<connection> conns;
    std::set<std::string> taken;
    struct end
    {
        int comp;
        const variable_description* v;
    };
    std::vector<end> outs, ins;
    for (int i = 0; i < elements; ++i) {
        for (auto& n : comps[static_cast<std::size_t>(i)].connectors) {
            auto& v = var(comps[static_cast<std::size_t>(i)], n);
            if (v.variability == variable_variability::constant) continue;
            if (v.causality == variable_causality::output || v.causality == variable_causality::calculated_parameter) outs.push_back({i, &v});
            if (v.causality == variable_causality::input || (v.causality == variable_causality::parameter && v.variability == variable_variability::tunable)) ins.push_back({i, &v});
        }
    }
    c.shuffle(ins);
    std::string why;
    for (auto& in : ins) {
        if (!c.chance(60) || outs.empty()) continue;
        auto& out = c.pick(outs);
        if (!cosim::is_valid_connection(*out.v, *in.v, &why)) continue;
        connection k{out.comp, in.comp, out.v->name, in.v->name};
        if (in.v->type == variable_type::real && c.chance(35)) {
            // a function's output can't go to a parameter, nor a calculated parameter to it
            const variable_description fin{"in", 0, variable_type::real, variable_causality::input, variable_variability::continuous, std::nullopt};
            const variable_description fout{"out", 0, variable_type::real, variable_causality::output, variable_variability::continuous, std::nullopt};
            if (cosim::is_valid_connection(*out.v, fin, &why) && cosim::is_valid_connection(fout, *in.v, &why)) {
                k.linear = true;
                k.giveFactor = c.chance(75);
                k.giveOffset = c.chance(75);
                if (k.giveFactor) k.factor = c.real();
                if (k.giveOffset) k.offset = c.real();
            }
        }
        conns.push_back(k);
        taken.insert(key(fname(comps[static_cast<std::size_t>(in.comp)].name, in.v->name)));
    }

    // --- the document -------------------------------------------------------
    std::optional<double> start, stop, baseStep;
    std::optional<unsigned> workers;
    const bool experiment = c.chance(80);
    if (experiment) {
        if (c.chance(60)) start = gen_seconds(c, false);
        if (c.chance(40)) stop = start.value_or(0.0) + gen_seconds(c, true);
        if (c.chance(70)) {
            baseStep = gen_seconds(c, true);
            if (c.chance(40)) workers = c.chance(80) ? static_cast<unsigned>(c.irange(0, 3)) : c.one_of<unsigned>({4, 5, 100, 4294967295u});
        }
    }
    const std::pair<std::string, std::string> NS[] = {
        {"xmlns:ssd", "http://ssp-standard.org/SSP1/SystemStructureDescription"},
        {"xmlns:ssc", "http://ssp-standard.org/SSP1/SystemStructureCommon"},
        {"xmlns:ssv", "http://ssp-standard.org/SSP1/SystemStructureParameterValues"},
        {"xmlns:osp", "http://opensimulationplatform.com/SSP/OSPAnnotations"}};
    const bool local = c.chance(20); // declarations of namespaces where they are used
    int ids = 0;
    auto base_attrs = [&](xml::el* e) {
        if (c.chance(5)) e->attrs.push_back({"id", pbt::cat("id", ids++)});
        if (c.chance(5)) e->attrs.push_back({"description", c.one_of<std::string>({"", "A description", "\xc3\xa6", "name"})});
        c.shuffle(e->attrs);
        return e;
    };
    auto other_annotation = [&](xml::el* as) {
        if (!c.chance(25)) return;
        auto* a = as->add("ssc:Annotation", {{"type", c.one_of<std::string>({"org.example", "com.opensimulationplatform.other", ""})}});
        if (c.chance(50)) a->add("x:Thing", {{"xmlns:x", "urn:x"}, {"value", "1"}});
        if (c.chance(20)) a->add("osp:StepSizeHint", {{"xmlns:osp", "urn:other"}, {"value", "77"}});
        if (c.chance(20)) a->text = "text";
    };
    auto parameter_set = [&](const binding& b) {
        auto e = std::make_shared<xml::el>(xml::el{"ssv:ParameterSet", {{"version", "1.0"}, {"name", b.set}}, {}, ""});
        if (!b.source.empty() || local) e->attrs.push_back(NS[2]);
        base_attrs(e.get());
        auto* ps = e->add("ssv:Parameters");
        if (c.chance(5)) ps->attrs.push_back(NS[1]);
        for (auto& p : b.parameters) {
            auto* pe = base_attrs(ps->add("ssv:Parameter", {{"name", p.name.substr(b.prefix.size())}}));
            auto* v = pe->add(pbt::cat("ssv:", TYPES[p.value.index() == 0 ? 0 : p.value.index() == 1 ? 1 : p.value.index() == 2 ? 2 : 3]), {{"value", p.text}});
            if (p.value.index() == 0 && c.chance(10)) v->attrs.push_back({"unit", "m"});
        }
        if (c.chance(5)) e->add("ssv:Units")->add("ssc:Unit", {{"name", "m"}})->add("ssc:BaseUnit", {{"m", "1"}});
        return e;
    };
    xml::el root;
    root.name = "ssd:SystemStructureDescription";
    root.attrs = {{"name", c.one_of<std::string>({"system", "", "my system"})}, {"version", c.one_of<std::string>({"1.0", "1.0-beta"})}};
    for (auto& n : NS) {
        if (!local || n.first == "xmlns:ssd") root.attrs.push_back(n);
    }
    base_attrs(&root);
    auto* sys = base_attrs(root.add("ssd:System", {{"name", "the system"}}));
    if (c.chance(10)) sys->add("ssd:Connectors")->add("ssd:Connector", {{"name", "sysin"}, {"kind", "input"}})->add("ssc:Real");
    if (c.chance(10)) sys->add("ssd:ElementGeometry", {{"x1", "0"}, {"y1", "0"}, {"x2", "1"}, {"y2", "1"}});
    if (!comps.empty() || c.chance(50)) {
        auto* es = base_attrs(sys->add("ssd:Elements"));
        for (auto& k : comps) {
            auto* e = base_attrs(es->add("ssd:Component", {{"name", k.name}, {"source", k.source}}));
            if (c.chance(20)) e->attrs.push_back({"type", "application/x-fmu-sharedlibrary"});
            if (c.chance(10)) e->attrs.push_back({"implementation", "CoSimulation"});
            if (!k.connectors.empty() || c.chance(20)) {
                auto* cs = base_attrs(e->add("ssd:Connectors"));
                if (local) cs->attrs.push_back(NS[1]);
                for (auto& n : k.connectors) {
                    auto& v = var(k, n);
                    auto* ce = base_attrs(cs->add("ssd:Connector", {{"name", n}, {"kind", v.causality == variable_causality::input ? "input" : v.causality == variable_causality::output ? "output" : "parameter"}}));
                    if (!c.chance(10)) {
                        auto* t = ce->add(pbt::cat("ssc:", TYPES[static_cast<int>(v.type)]));
                        if (v.type == variable_type::real && c.chance(10)) t->attrs.push_back({"unit", "m"});
                    }
                    if (c.chance(5)) ce->add("ssd:ConnectorGeometry", {{"x", "0"}, {"y", "0.5"}});
                }
            }
            if (c.chance(5)) e->add("ssd:ElementGeometry", {{"x1", "0"}, {"y1", "0"}, {"x2", "1"}, {"y2", "1"}});
            if (!k.bindings.empty() || c.chance(10)) {
                auto* bs = base_attrs(e->add("ssd:ParameterBindings"));
                for (auto& b : k.bindings) {
                    auto* be = base_attrs(bs->add("ssd:ParameterBinding"));
                    if (!b.prefix.empty() || c.chance(5)) be->attrs.push_back({"prefix", b.prefix});
                    if (c.chance(10)) be->attrs.push_back({"type", "application/x-ssp-parameter-set"});
                    auto ps = parameter_set(b);
                    if (b.source.empty()) {
                        base_attrs(be->add("ssd:ParameterValues"))->kids.push_back(ps);
                    } else {
                        be->attrs.push_back({"source", b.source});
                        if (c.chance(10)) be->attrs.push_back({"sourceBase", "SSD"});
                        ssvRoots.push_back(ps);
                        ssvFiles.push_back(b.file);
                    }
                }
            }
            if (k.step || c.chance(10)) {
                auto* as = base_attrs(e->add("ssd:Annotations"));
                other_annotation(as);
                auto* a = as->add("ssc:Annotation", {{"type", "com.opensimulationplatform"}});
                if (local) {
                    as->attrs.push_back(NS[1]);
                    a->attrs.push_back(NS[3]);
                }
                if (k.step) a->add("osp:StepSizeHint", {{"value", number(c, *k.step)}});
                other_annotation(as);
            }
        }
        c.shuffle(es->kids);
    }
    if (!conns.empty() || c.chance(20)) {
        auto* cs = base_attrs(sys->add("ssd:Connections"));
        for (auto& k : conns) {
            auto* e = base_attrs(cs->add("ssd:Connection", {{"startElement", comps[static_cast<std::size_t>(k.from)].name}, {"startConnector", k.out}, {"endElement", comps[static_cast<std::size_t>(k.to)].name}, {"endConnector", k.in}}));
            c.shuffle(e->attrs);
            if (c.chance(5)) e->attrs.push_back({"suppressUnitConversion", "true"});
            if (k.linear) {
                auto* l = e->add("ssc:LinearTransformation");
                if (local) l->attrs.push_back(NS[1]);
                if (k.giveFactor) l->attrs.push_back({"factor", number(c, k.factor)});
                if (k.giveOffset) l->attrs.push_back({"offset", number(c, k.offset)});
                c.shuffle(l->attrs);
            }
            if (c.chance(5)) e->add("ssd:ConnectionGeometry", {{"pointsX", "0 1"}, {"pointsY", "0 1"}});
        }
        c.shuffle(cs->kids);
    }
    if (c.chance(5)) sys->add("ssd:SystemGeometry", {{"x1", "0"}, {"y1", "0"}, {"x2", "1"}, {"y2", "1"}});
    if (c.chance(5)) root.add("ssd:Units")->add("ssc:Unit", {{"name", "m"}})->add("ssc:BaseUnit", {{"m", "1"}});
    if (experiment) {
        auto* x = base_attrs(root.add("ssd:DefaultExperiment"));
        if (start) x->attrs.push_back({"startTime", number(c, *start)});
        if (stop) x->attrs.push_back({"stopTime", number(c, *stop)});
        c.shuffle(x->attrs);
        if (baseStep || c.chance(15)) {
            auto* as = base_attrs(x->add("ssd:Annotations"));
            other_annotation(as);
            if (baseStep) {
                auto* a = as->add("ssc:Annotation", {{"type", "com.opensimulationplatform"}});
                if (local) as->attrs.push_back(NS[1]);
                auto* al = a->add("osp:Algorithm");
                if (local) al->attrs.push_back(NS[3]);
                auto* f = al->add("osp:FixedStepAlgorithm", {{"baseStepSize", number(c, *baseStep)}});
                if (workers) f->attrs.push_back({"numWorkerThreads", std::to_string(*workers)});
                c.shuffle(f->attrs);
            }
            other_annotation(as);
        }
    }
    if (c.chance(5)) {
        auto* as = root.add("ssd:Annotations");
        as->add("ssc:Annotation", {{"type", "com.opensimulationplatform"}})->add("osp:Other");
    }

    // --- one fault ----------------------------------------------------------
    std::string wrong;
    if (c.chance(35)) {
        auto all = [&](const char* n) {
            auto v = xml::find(root, n);
            for (auto& s : ssvRoots) {
                auto w = xml::find(*s, n);
                v.insert(v.end(), w.begin(), w.end());
            }
            return v;
        };
        auto on = [&](const char* n, const std::function<bool(xml::el&)>& f, const std::string& what) {
            auto v = all(n);
            if (v.empty()) return;
            if (f(*v[c.draw(v.size() - 1)])) wrong = what;
        };
        auto is_osp = [&](xml::el& e) { return e.attr("type") && *e.attr("type") == "com.opensimulationplatform"; };
        const std::vector<std::string> anyNumber = {"", "x", "1,5", "0x", "--1", "1e999", "1.5.5"};
        switch (c.draw(25)) {
            case 0: on("ssd:Connection", [&](xml::el& e) { *e.attr(c.one_of<std::string>({"startElement", "endElement"})) = c.one_of<std::string>({"nobody", "", "COMP0"}); return true; }, "a connection of an unknown component"); break;
            case 1: on("ssd:Connection", [&](xml::el& e) { *e.attr(c.one_of<std::string>({"startConnector", "endConnector"})) = c.one_of<std::string>({"nothing", "", "V0"}); return true; }, "a connection of an unknown connector"); break;
            case 2: on("ssd:Connection", [&](xml::el& e) { e.drop(c.one_of<std::string>({"startConnector", "endConnector", "startElement", "endElement"})); return true; }, "a connection with an end missing"); break;
            case 3: // a connector which isn't listed
                on("ssd:Connection", [&](xml::el& e) {
                    const bool s = c.chance(50);
                    const auto ce = *e.attr(s ? "startElement" : "endElement"), cn = *e.attr(s ? "startConnector" : "endConnector");
                    for (auto* k : xml::find(root, "ssd:Component")) {
                        if (*k->attr("name") != ce) continue;
                        for (auto& cs : k->kids) {
                            if (cs->name != "ssd:Connectors") continue;
                            for (auto& x : cs->kids) {
                                if (*x->attr("name") == cn) {
                                    *x->attr("name") += "?";
                                    return true;
                                }
                            }
                        }
                    }
                    return false;
                },
                    "a connector that is not listed");
                break;
            case 4: // a connector without a variable
                on("ssd:Connection", [&](xml::el& e) {
                    const bool s = c.chance(50);
                    const auto ce = *e.attr(s ? "startElement" : "endElement");
                    for (auto* k : xml::find(root, "ssd:Component")) {
                        if (*k->attr("name") != ce) continue;
                        for (auto& cs : k->kids) {
                            if (cs->name != "ssd:Connectors") continue;
                            cs->add("ssd:Connector", {{"name", "not a variable"}, {"kind", s ? "output" : "input"}})->add("ssc:Real");
                            *e.attr(s ? "startConnector" : "endConnector") = "not a variable";
                            return true;
                        }
                    }
                    return false;
                },
                    "a connector without a variable");
                break;
            case 5: on("ssd:Connection", [&](xml::el& e) { std::swap(*e.attr("startElement"), *e.attr("endElement")); std::swap(*e.attr("startConnector"), *e.attr("endConnector")); return true; }, "a connection the wrong way"); break;
            case 6: { // several connections to one variable
                auto v = all("ssd:Connections");
                if (v.size() == 1 && !v[0]->kids.empty()) {
                    v[0]->kids.push_back(c.pick(v[0]->kids)->copy());
                    if (c.chance(50)) v[0]->kids.back()->kids.clear();
                    wrong = "two connections to one input";
                }
                break;
            }
            case 7: { // the same name for several components
                auto v = all("ssd:Elements");
                if (v.size() == 1 && !v[0]->kids.empty()) {
                    auto k = c.pick(v[0]->kids)->copy();
                    if (c.chance(50)) {
                        k->kids.clear();
                        *k->attr("source") = models[0].refs[0];
                    }
                    v[0]->kids.push_back(k);
                    wrong = "two components of the same name";
                }
                break;
            }
            case 8: on("ssd:Component", [&](xml::el& e) { e.drop(c.one_of<std::string>({"name", "source"})); return true; }, "a component without a name or source"); break;
            case 9: on("ssd:Component", [&](xml::el& e) { *e.attr("source") = c.one_of<std::string>({"unknown.fmu", "test:unknown", "http://[", "no such file.fmu", "#"}); return true; }, "a component with an unknown source"); break;
            case 10: on("ssd:Connector", [&](xml::el& e) {
                    if (*e.attr("name") == "sysin") return false; // the system's own are ignored
                    for (auto& k : e.kids) {
                        if (k->name.compare(0, 4, "ssc:") == 0) {
                            k->name = c.one_of<std::string>({"ssc:Enumeration", "ssc:Binary"});
                            return true;
                        }
                    }
                    return false; }, "a connector of an unsupported type"); break;
            case 11: on("ssd:Connector", [&](xml::el& e) { if (*e.attr("name") == "sysin") return false; e.drop(c.one_of<std::string>({"name", "kind"})); return true; }, "a connector with an attribute missing"); break;
            case 12: on("ssv:Parameter", [&](xml::el& e) { if (c.chance(40)) e.kids.clear(); else e.kids[0]->name = c.one_of<std::string>({"ssv:Enumeration", "ssv:Binary", "ssv:real", "ssv:Float64"}); return true; }, "a parameter without a usable value"); break;
            case 13: on(c.one_of<const char*>({"ssv:Real", "ssv:Integer", "ssv:Boolean"}), [&](xml::el& e) { *e.attr("value") = c.pick(anyNumber); if (e.name == "ssv:Integer" && c.chance(30)) *e.attr("value") = c.one_of<std::string>({"1.5", "2147483648", "1e3"}); if (e.name == "ssv:Boolean" && c.chance(30)) *e.attr("value") = c.one_of<std::string>({"True", "yes", "2"}); return true; }, "an invalid parameter value"); break;
            case 14: on(c.one_of<const char*>({"ssv:Real", "ssv:Integer", "ssv:Boolean", "ssv:String"}), [&](xml::el& e) { e.drop("value"); return true; }, "a parameter value missing"); break;
            case 15: on(c.one_of<const char*>({"ssv:Parameter", "ssv:ParameterSet"}), [&](xml::el& e) { e.drop("name"); return true; }, "a nameless parameter or set"); break;
            case 16:
                if (!ssvFiles.empty()) {
                    const auto i = c.draw(ssvFiles.size() - 1);
                    switch (c.draw(2)) {
                        case 0: ssvFiles[i].clear(); break; // not written
                        case 1: ssvRoots[i]->name = "ssv:ParameterSets"; break;
                        default: ssvRoots[i]->kids.erase(ssvRoots[i]->kids.begin()); // no ssv:Parameters
                    }
                    wrong = "no such parameter set";
                }
                break;
            case 17:
                on("osp:FixedStepAlgorithm", [&](xml::el& e) {
                    if (c.chance(10)) e.drop("baseStepSize");
                    else *e.attr("baseStepSize") = c.chance(50) ? c.pick(anyNumber) : c.one_of<std::string>({"0", "-1", "1e300", "-1e300", "1e-12", "9.3e9", "NaN", "INF", "-0.1", "9223372036.854776"});
                    return true;
                },
                    "an unusable base step size");
                break;
            case 18: on("osp:FixedStepAlgorithm", [&](xml::el& e) { e.drop("numWorkerThreads"); e.attrs.push_back({"numWorkerThreads", c.one_of<std::string>({"", "-1", "x", "1.5", "4294967296", "1e3", "99999999999999999999"})}); return true; }, "an invalid number of threads"); break;
            case 19:
                on("ssd:DefaultExperiment", [&](xml::el& e) {
                    const auto n = c.one_of<std::string>({"startTime", "startTime", "stopTime"});
                    e.drop(n);
                    e.attrs.push_back({n, n == "startTime" && c.chance(30) ? c.one_of<std::string>({"1e300", "-1e10", "1e10", "NaN", "INF", "9223372036.854776", "-9223372036.854776"}) : c.pick(anyNumber)});
                    return true;
                },
                    "an invalid time");
                break;
            case 20: on("osp:FixedStepAlgorithm", [&](xml::el& e) { e.name = c.one_of<std::string>({"osp:VariableStepAlgorithm", "FixedStepAlgorithm"}); return true; }, "an unknown algorithm"); break;
            case 21: on("ssd:Connection", [&](xml::el& e) { for (auto& k : e.kids) { if (k->name == "ssc:LinearTransformation") k->name = "ssd:Other"; } e.add(c.one_of<std::string>({"ssc:BooleanMappingTransformation", "ssc:IntegerMappingTransformation", "ssc:EnumerationMappingTransformation"})); return true; }, "an unsupported transformation"); break;
            case 22: on("ssc:LinearTransformation", [&](xml::el& e) { const auto n = c.one_of<std::string>({"factor", "offset"}); e.drop(n); e.attrs.push_back({n, c.pick(anyNumber)}); return true; }, "an invalid factor or offset"); break;
            case 23: on("osp:StepSizeHint", [&](xml::el& e) { if (e.attr("xmlns:osp")) return false; if (c.chance(20)) e.drop("value"); else *e.attr("value") = c.chance(50) ? c.pick(anyNumber) : c.one_of<std::string>({"1e300", "NaN", "1e10", "9223372036.854776"}); return true; }, "an invalid step size hint"); break;
            case 24:
                switch (c.draw(3)) {
                    case 0: root.name = c.one_of<std::string>({"SystemStructureDescription", "ssd:System", "x"}); break;
                    case 1: sys->name = "ssd:SubSystem"; break;
                    case 2: root.drop(c.one_of<std::string>({"name", "version"})); break;
                    default: sys->drop("name");
                }
                wrong = "a part missing";
                break;
            default: on("ssc:Annotation", [&](xml::el& e) { if (!is_osp(e)) return false; for (auto& k : e.kids) { if (k->name == "osp:Algorithm") { k->name = "osp:Algorithms"; return true; } } return false; }, "an algorithm missing"); break;
        }
    }
    bool crashOnly = false;
    const int noise = wrong.empty() ? c.weighted({80, 12, 8}) : 0;
    if (noise == 1) {
        for (int k = c.irange(1, 2); k > 0; --k) xml::mutate(c, !ssvRoots.empty() && c.chance(30) ? *c.pick(ssvRoots) : root);
        crashOnly = true;
    }
    for (std::size_t i = 0; i < ssvFiles.size(); ++i) {
        if (ssvFiles[i].empty()) continue;
        auto t = xml::write_document(c, *ssvRoots[i]);
        if (noise == 2 && c.chance(30)) xml::damage(c, t);
        c.note("--- " + ssvFiles[i] + "\n" + t);
        if (archive) files[fs::path(ssvFiles[i]).lexically_normal().string()] = t;
        else files[ssvFiles[i]] = t;
    }
    auto text = xml::write_document(c, root);
    if (noise == 2) {
        xml::damage(c, text);
        crashOnly = true;
    }
    c.note("--- " + ssdName + "\n" + text);
    bool noFile = false;
    if (!crashOnly && wrong.empty() && c.chance(3)) {
        switch (c.draw(2)) {
            case 0: noFile = true; break;
            case 1: text = c.one_of<std::string>({"", " ", "<a/>", "no xml at all"}); break;
            default: text.resize(text.rfind("</"));
        }
        wrong = "no such document";
    }
    if (!noFile) files[ssdName] = text;
    // other systems in the same place
    for (auto* n : {"SystemStructure.ssd", "Other2.ssd", "Another.ssd"}) {
        if (n != ssdName && c.chance(20)) files[n] = c.one_of<std::string>({"<ssd:SystemStructureDescription name=\"decoy\" version=\"1.0\"><ssd:System name=\"d\"><ssd:Elements><ssd:Component name=\"decoy\" source=\"test:model0\"/></ssd:Elements></ssd:System></ssd:SystemStructureDescription>", "nonsense"});
    }

    // --- write --------------------------------------------------------------
    fs::path arg = cfgDir;
    if (archive) {
        std::vector<zipfile::entry> es;
        for (auto& [n, t] : files) {
            if (c.chance(20) && n.find('/') != std::string::npos) es.push_back({n.substr(0, n.find('/') + 1), "", false});
            es.push_back({n, t, c.chance(70)});
        }
        // no duplicate directories
        std::set<std::string> once;
        std::vector<zipfile::entry> unique;
        for (auto& e : es) {
            if (once.insert(e.name).second) unique.push_back(e);
        }
        auto z = zipfile::make_zip(unique, "", "");
        if (!crashOnly && wrong.empty() && c.chance(3)) {
            z.resize(c.draw(z.size() - 1));
            wrong = "a truncated archive";
        }
        arg = cfgDir / c.one_of<std::string>({"demo.ssp", "my demo.ssp", "\xc3\xa6.ssp", ".x.ssp"});
        write_file(arg, z);
    } else {
        for (auto& [n, t] : files) write_file(cfgDir / n, t);
        if (c.chance(20) && !noFile) arg = cfgDir / ssdName;
    }

    // --- load -----------------------------------------------------------------
    cosim::ssp_loader loader;
    auto r = std::make_shared<cosim::model_uri_resolver>();
    r->add_sub_resolver(resolver);
    loader.set_model_uri_resolver(r);
    if (customName) loader.set_ssd_file_name(stem);
    bool moved = false;
    if (c.chance(15)) {
        if (::chdir(base.c_str())) throw std::runtime_error("harness: chdir");
        moved = true;
        // What is here is none of the description's business.
        for (auto& k : comps)
            for (auto& b : k.bindings)
                if (!b.source.empty() && b.source.find("..") == std::string::npos && b.source.find("://") == std::string::npos)
                    for (auto& n : {b.source, b.file})
                        if (!fs::exists(base / n)) write_file(base / n, "not for this system");
        if (arg != base && !fs::exists(base / ssdName)) write_file(base / ssdName, "not this system");
        arg = fs::relative(arg, base);
        if (archive || arg != fs::path(dirName) || c.chance(50)) c.label("relative path");
    }
    const auto before = listing(tmp);
    // (A thread which has been joined may remain listed for a moment.)
    for (int k = 0; threads() > 1 && k < 2000; ++k) ::usleep(1000);
    const int threadsBefore = threads();
    std::optional<cosim::ssp_configuration> got;
    std::string error;
    try {
        got = loader.load(arg);
    } catch (const std::exception& e) {
        error = e.what();
        if (error.empty()) error = "(no message)";
    } catch (...) {
        pbt::fail("exception-type", "loading fails with something that is not a std::exception");
    }
    if (moved && ::chdir("/")) throw std::runtime_error("harness: chdir");
    PBT_REQUIRE("left-behind", listing(tmp) == before, "loading leaves files behind in the directory for temporary files");
    if (crashOnly) {
        c.label(got ? "mutated: loaded" : "mutated: refused");
        if (!got) return;
        for (auto conn : got->system_structure.connections()) {
            PBT_REQUIRE("dangling", got->system_structure.find_entity(conn.source.entity_name) && got->system_structure.find_entity(conn.target.entity_name), "a connection refers to an entity that does not exist");
        }
        PBT_REQUIRE("default-set", got->parameter_sets.count(""), "there is no default parameter set");
        return;
    }
    if (!wrong.empty()) {
        c.label("refused");
        c.label("refused: " + wrong);
        if (comps.size() > 1) c.nontrivial();
        PBT_REQUIRE("accepted", !got, "loaded without an error, despite ", wrong);
        return;
    }
    PBT_REQUIRE("refused", got, "a valid description is refused: ", error);

    // --- compare -------------------------------------------------------------
    const auto& ss = got->system_structure;
    PBT_REQUIRE("resource", resolver->missing.empty(), "the model at ", resolver->missing, " was not there when it was looked up");
    std::map<std::string, int> wantAsked, haveAsked;
    for (auto& k : comps) {
        auto& m = models[static_cast<std::size_t>(k.model)];
        const auto* e = ss.find_entity(k.name);
        PBT_REQUIRE("component", e, "component ", pbt::quote(k.name), " is missing");
        PBT_REQUIRE("component-model", cosim::entity_type_to<cosim::model>(e->type) == m.m, "component ", pbt::quote(k.name), " has the wrong model");
        PBT_REQUIRE("step-size-hint", close(e->step_size_hint.count(), k.step.value_or(0.0)), "component ", pbt::quote(k.name), " has step size ", e->step_size_hint.count(), " ns, expected ", k.step.value_or(0.0), " s");
        if (!archive) ++wantAsked[std::string(cosim::resolve_reference(ssdUri, cosim::uri(k.source)).view())];
    }
    for (auto& [m, u] : resolver->asked) {
        ++haveAsked[u];
        if (archive && !m->resource.empty()) {
            const auto p = cosim::file_uri_to_path(cosim::uri(u)).string();
            PBT_REQUIRE("archive-uri", p.compare(0, tmp.string().size() + 1, tmp.string() + "/") == 0 && p.substr(p.find('/', tmp.string().size() + 1) + 1) == m->resource, "the model ", m->resource, " was looked up as ", u);
        }
    }
    PBT_REQUIRE("lookups", archive ? static_cast<int>(resolver->asked.size()) == elements : haveAsked == wantAsked, "models were looked up by the wrong URIs");
    // connections, through functions
    std::map<std::string, fname> sourceOf;
    for (auto conn : ss.connections()) sourceOf.insert_or_assign(key(conn.target), conn.source);
    std::set<std::string> used;
    std::size_t direct = 0;
    for (auto& k : conns) {
        const auto t = key(fname(comps[static_cast<std::size_t>(k.to)].name, k.in));
        const auto want = key(fname(comps[static_cast<std::size_t>(k.from)].name, k.out));
        const auto it = sourceOf.find(t);
        PBT_REQUIRE("connection-missing", it != sourceOf.end(), "no connection to ", t);
        auto from = it->second;
        ++direct;
        if (k.linear) {
            const auto* e = ss.find_entity(from.entity_name);
            const auto f = e ? cosim::entity_type_to<cosim::function_type>(e->type) : nullptr;
            PBT_REQUIRE("transformation", f && std::dynamic_pointer_cast<cosim::linear_transformation_function_type>(f), "the connection to ", t, " has no linear transformation");
            PBT_REQUIRE("transformation-shared", used.insert(e->name).second, "two connections have the same linear transformation");
            auto param = [&](int i) {
                const auto p = e->parameter_values.find(i);
                return std::get<double>(p == e->parameter_values.end() ? f->description().parameters.at(static_cast<std::size_t>(i)).default_value : p->second);
            };
            PBT_REQUIRE("transformation-parameters", param(cosim::linear_transformation_function_type::offset_parameter_index) == k.offset && param(cosim::linear_transformation_function_type::factor_parameter_index) == k.factor, "the connection to ", t, " has offset ", param(0), " and factor ", param(1), ", expected ", k.offset, " and ", k.factor);
            const auto in = sourceOf.find(key(fname(e->name, "in", 0, "", 0)));
            PBT_REQUIRE("transformation-source", in != sourceOf.end(), "the linear transformation for ", t, " has no source");
            from = in->second;
            ++direct;
        }
        PBT_REQUIRE("connection", key(from) == want, t, " is connected to ", key(from), ", expected ", want);
    }
    PBT_REQUIRE("connection-extra", sourceOf.size() == direct, "there are ", sourceOf.size(), " connections, expected ", direct);
    std::size_t entities = 0;
    for (auto& e : ss.entities()) {
        (void)e;
        ++entities;
    }
    PBT_REQUIRE("entities", entities == comps.size() + used.size(), "the system has ", entities, " entities, expected ", comps.size() + used.size());
    // parameters
    std::set<std::string> haveNames, wantNames;
    for (auto& [n, s] : got->parameter_sets) haveNames.insert(n);
    for (auto& [n, s] : wantSets) wantNames.insert(n);
    PBT_REQUIRE("set-names", haveNames == wantNames, "there are ", haveNames.size(), " parameter sets, expected ", wantNames.size());
    for (auto& [n, want] : wantSets) {
        const auto& have = got->parameter_sets.at(n);
        for (auto& [v, x] : have) {
            const auto it = want.find(key(v));
            PBT_REQUIRE("parameter-extra", it != want.end(), "parameter set ", pbt::quote(n), " has an unexpected value for ", key(v));
            PBT_REQUIRE("parameter-value", same_value(it->second, x), "parameter set ", pbt::quote(n), " has ", show(x), " for ", key(v), ", expected ", show(it->second));
        }
        PBT_REQUIRE("parameter-missing", have.size() == want.size(), "parameter set ", pbt::quote(n), " has ", have.size(), " values, expected ", want.size());
    }
    // the experiment
    PBT_REQUIRE("start-time", close(got->start_time.time_since_epoch().count(), start.value_or(0.0)), "start time ", got->start_time.time_since_epoch().count(), " ns, expected ", start.value_or(0.0), " s");
    PBT_REQUIRE("algorithm", !!got->algorithm == baseStep.has_value(), got->algorithm ? "an algorithm nobody asked for" : "no algorithm");
    if (baseStep) {
        const auto most = std::thread::hardware_concurrency() - 1;
        const int pool = static_cast<int>(std::min(workers.value_or(most), most));
        PBT_REQUIRE("threads", threads() - threadsBefore == pool, "the algorithm has ", threads() - threadsBefore, " threads, expected ", pool);
        if (std::abs(start.value_or(0.0)) + *baseStep < 9e9) {
            cosim::execution x(got->start_time, got->algorithm);
            x.step();
            PBT_REQUIRE("base-step", close((x.current_time() - got->start_time).count(), *baseStep), "the step is ", (x.current_time() - got->start_time).count(), " ns, expected ", *baseStep, " s");
        }
    }

    if (comps.size() > 1 && !conns.empty()) c.nontrivial();
    if (archive) c.label("archive");
    if (customName) c.label("other document name");
    if (external) c.label("external parameters");
    if (prefixed) c.label("prefix");
    if (skipped) c.label("parameters that don't fit");
    if (!used.empty()) c.label("linear transformation");
    if (wantSets.size() > 2) c.label("several parameter sets");
    if (local) c.label("local namespace declarations");
}
} // namespace

int main(int argc, char** argv)
{
    pbt::spec s;
    s.id = "C21";
    s.rule = "a case is a generated SSP system structure description (with parameter value files and resources) in a directory or archive; valid, with one fault, or mutated; "
             "non-trivial: at least two components and (when valid) at least one connection";
    s.quick_cases = 22000;
    s.thorough_cases = 500000;
    s.run = run;
    s.hang_seconds = 60;
    return pbt::main(argc, argv, s);
}
