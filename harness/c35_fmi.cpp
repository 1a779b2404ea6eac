// C35: FMUs are imported, described, instantiated and driven faithfully.
#include "fmilib/fake_fmi.hpp"
#include "fstree.hpp"
#include "zipfile.hpp"

#include <cosim/exception.hpp>
#include <cosim/file_cache.hpp>
#include <cosim/fmi/fmu.hpp>
#include <cosim/fmi/importer.hpp>
#include <cosim/log/logger.hpp>
#include <cosim/time.hpp>

#include <boost/log/core.hpp>
#include <boost/log/expressions.hpp>
#include <boost/log/sinks/basic_sink_backend.hpp>
#include <boost/log/sinks/sync_frontend.hpp>
#include <boost/make_shared.hpp>

#include <cmath>
#include <csignal>
#include <limits>
#include <sys/resource.h>
#include <sys/wait.h>

using namespace fstree;

namespace
{
using time_point = cosim::time_point;

// ---- making FMUs up --------------------------------------------------------

enum class flaw { none, not_zip, no_description, no_version, other_version, no_guid, bad_xml, unparsable, not_cosim, no_code, no_instance, truncated, escaping };

struct file
{
    fs::path path; // .fmu file or directory
    bool unpacked = false;
    std::size_t m = 0; // in fake::models
    flaw f = flaw::none;
    bool changed = false; // since the first
};

fake::variable gen_variable(pbt::test_case& c, int version, int n)
{
    fake::variable v;
    v.name = c.chance(20) ? c.ascii(12, "ab.[],1 _\xc3\xa6<&\"") : "v" + std::to_string(n);
    v.vr = c.chance(10) ? static_cast<unsigned>(c.one_of<std::int64_t>({0, 4294967295LL, 2147483648LL})) : static_cast<unsigned>(c.range(0, 8));
    v.t = static_cast<fake::type>(c.weighted({4, 2, 2, 2, 1}));
    v.causality = c.irange(0, version == 1 ? 3 : 5);
    v.variability = c.irange(0, version == 1 ? 3 : 4);
    v.start = c.chance(50);
    v.r = c.real();
    v.i = v.t == fake::boolean ? c.irange(0, 1) : static_cast<int>(c.integer(std::numeric_limits<int>::min(), std::numeric_limits<int>::max()));
    if (v.t == fake::boolean && v.i && c.chance(30)) v.i = c.one_of<int>({2, -1, 127});
    v.s = c.ascii(10, "ab %\n");
    return v;
}

std::size_t gen_model(pbt::test_case& c, const std::string& guid, int version, flaw f)
{
    fake::model m;
    m.version = version;
    if (version == 1) m.kind = f == flaw::not_cosim ? c.one_of<int>({0, 3}) : c.irange(1, 2);
    else m.kind = f == flaw::not_cosim ? c.one_of<int>({1, 0}) : c.irange(2, 3);
    m.parses = f != flaw::unparsable;
    m.loads = f != flaw::no_code;
    m.instantiates = f != flaw::no_instance;
    m.once = c.chance(20);
    m.name = "model " + std::to_string(fake::models.size());
    m.guid = guid;
    m.description = c.ascii(12, "ab %\n");
    m.author = c.ascii(5, "ab %");
    m.model_version = c.ascii(5, "01.");
    c.repeat(0, 12, 4, [&](int n) { m.vars.push_back(gen_variable(c, version, n)); });
    const auto id = fake::models.size();
    m.files["binaries/linux64/model.so"] = "code of " + std::to_string(id) + std::string(static_cast<std::size_t>(c.one_of<int>({0, 100, 70000, 200000})), 'x');
    c.repeat(0, 4, 1, [&](int n) {
        m.files["resources/" + std::string(c.chance(30) ? "deep/er/" : "") + "r" + std::to_string(n)] = std::to_string(id) + c.ascii(20, "ab") + std::string(static_cast<std::size_t>(c.one_of<int>({0, 5000, 150000})), 'y');
    });
    fake::models.push_back(m);
    return id;
}

std::string xml_of(pbt::test_case& c, std::size_t id, flaw f)
{
    auto& m = fake::models[id];
    std::string a = " modelName=\"x\" stamp=\"" + std::to_string(id) + "\"";
    std::string ver = m.version == 1 ? c.one_of<const char*>({"1.0", "1.0", "1.0.1"}) : c.one_of<const char*>({"2.0", "2.0", "2.0.3"});
    if (f == flaw::other_version) ver = c.one_of<const char*>({"3.0", "2.1", "1", "x", "12.0", "3.0-beta.2"});
    if (c.chance(15)) ver = " " + ver + " ";
    if (f != flaw::no_version) a = " fmiVersion=\"" + ver + "\"" + a;
    else if (c.chance(50)) a = " fmiVersion=\"" + std::string(c.one_of<const char*>({"", "  "})) + "\"" + a;
    if (f != flaw::no_guid) a += " guid=\"" + (c.chance(15) ? " " + m.guid : m.guid) + "\"";
    else if (c.chance(50)) a += std::string(" guid=\"") + c.one_of<const char*>({"", " "}) + "\"";
    std::string x = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<fmiModelDescription" + a + ">" + std::string(static_cast<std::size_t>(c.one_of<int>({0, 3000, 100000})), ' ');
    if (f == flaw::bad_xml) return x;
    return x + "</fmiModelDescription>\n";
}

void write_contents(pbt::test_case& c, file& f)
{
    auto& m = fake::models[f.m];
    std::vector<std::pair<std::string, std::string>> all(m.files.begin(), m.files.end());
    c.shuffle(all);
    if (f.f != flaw::no_description) {
        // first, usually
        const auto at = c.chance(30) ? c.draw(all.size()) : 0;
        all.insert(all.begin() + static_cast<std::ptrdiff_t>(at), {"modelDescription.xml", xml_of(c, f.m, f.f)});
    }
    if (f.f == flaw::escaping) all.insert(all.begin() + static_cast<std::ptrdiff_t>(c.draw(all.size())), {c.one_of<const char*>({"../escaped", "/escaped", "resources/../../escaped"}), "escaped"});
    if (f.unpacked) {
        for (auto& [name, text] : all) {
            fs::create_directories((f.path / name).parent_path());
            spit(f.path / name, text);
        }
        return;
    }
    fs::create_directories(f.path.parent_path());
    std::vector<zipfile::entry> es;
    if (c.chance(50)) es.push_back({"binaries/", "", false});
    for (auto& [name, text] : all) es.push_back({name, text, c.chance(50)});
    auto z = zipfile::make_zip(es, "", "");
    if (f.f == flaw::not_zip) z = c.one_of<const char*>({"", "not a ZIP file", "PK"});
    if (f.f == flaw::truncated) {
        // The directory at the end is there, but an entry's data are not what they should be.
        const auto at = z.find("code of ");
        if (at == std::string::npos) { // compressed: hit its data, wherever they are
            const auto name = z.find("binaries/linux64/model.so");
            for (int i = 0; i < 3; ++i) z[name + 25 + static_cast<std::size_t>(i)] ^= 0x55;
        } else
            z[at] ^= 0x55;
    }
    spit(f.path, z);
}

// ---- the run ----------------------------------------------------------------

struct slave
{
    std::shared_ptr<cosim::fmi::slave_instance> p;
    fake::handle* h = nullptr;
    std::size_t m = 0;
    std::string name;
    int state = 0; // 0 new, 1 initialising, 2 running, 3 ended
    bool broken = false;
    time_point now;
    std::optional<time_point> stop;
    std::optional<double> tol;
    time_point start;
    std::size_t steps = 0;
};

template<typename F>
std::string thrown(F&& f, std::string* kind = nullptr, cosim::errc* code = nullptr)
{
    try {
        f();
    } catch (const cosim::nonfatal_bad_value& e) {
        if (kind) *kind = "nonfatal";
        return e.what();
    } catch (const cosim::error& e) {
        if (kind) *kind = "cosim";
        if (code) *code = static_cast<cosim::errc>(e.code().value());
        return e.what();
    } catch (const pbt::failure&) {
        throw;
    } catch (const std::exception& e) {
        if (kind) *kind = "std";
        return std::string("std: ") + e.what();
    }
    return "";
}

void check_description(const cosim::model_description& got, const fake::model& m)
{
    PBT_REQUIRE("description", got.name == m.name, "name ", got.name, " instead of ", m.name);
    PBT_REQUIRE("description", got.uuid == m.guid, "UUID ", got.uuid, " instead of ", m.guid);
    PBT_REQUIRE("description", got.description == m.description, "description");
    PBT_REQUIRE("description", got.author == m.author, "author");
    PBT_REQUIRE("description", got.version == m.model_version, "version");
    std::size_t n = 0;
    for (auto& v : m.vars) {
        if (v.t == fake::enumeration) continue;
        PBT_REQUIRE("description", n < got.variables.size(), "variable ", pbt::quote(v.name), " is missing");
        auto& g = got.variables[n++];
        PBT_REQUIRE("description", g.name == v.name, "variable ", n, " is ", pbt::quote(g.name), " instead of ", pbt::quote(v.name));
        PBT_REQUIRE("description", g.reference == v.vr, v.name, ": reference ", g.reference, " instead of ", v.vr);
        const cosim::variable_type types[] = {cosim::variable_type::real, cosim::variable_type::integer, cosim::variable_type::boolean, cosim::variable_type::string};
        PBT_REQUIRE("description", g.type == types[v.t], v.name, ": type");
        using vc = cosim::variable_causality;
        using vv = cosim::variable_variability;
        vc causality;
        vv variability;
        if (m.version == 1) {
            const vc cs[] = {v.variability == 1 ? vc::parameter : vc::input, vc::output, vc::local, vc::local};
            const vv vs[] = {vv::constant, vv::fixed, vv::discrete, vv::continuous};
            causality = cs[v.causality];
            variability = vs[v.variability];
        } else {
            const vc cs[] = {vc::parameter, vc::calculated_parameter, vc::input, vc::output, vc::local, vc::local};
            const vv vs[] = {vv::constant, vv::fixed, vv::tunable, vv::discrete, vv::continuous};
            causality = cs[v.causality];
            variability = vs[v.variability];
        }
        PBT_REQUIRE("description", g.causality == causality, v.name, ": causality ", static_cast<int>(g.causality), " instead of ", static_cast<int>(causality));
        PBT_REQUIRE("description", g.variability == variability, v.name, ": variability ", static_cast<int>(g.variability), " instead of ", static_cast<int>(variability));
        PBT_REQUIRE("description", g.start.has_value() == v.start, v.name, ": start value");
        if (v.start) {
            bool same = false;
            if (v.t == fake::real) same = std::holds_alternative<double>(*g.start) && std::get<double>(*g.start) == v.r;
            if (v.t == fake::integer) same = std::holds_alternative<int>(*g.start) && std::get<int>(*g.start) == v.i;
            if (v.t == fake::boolean) same = std::holds_alternative<bool>(*g.start) && std::get<bool>(*g.start) == (v.i != 0);
            if (v.t == fake::string) same = std::holds_alternative<std::string>(*g.start) && std::get<std::string>(*g.start) == v.s;
            PBT_REQUIRE("description", same, v.name, ": start value is not the one in the FMU");
        }
    }
    PBT_REQUIRE("description", n == got.variables.size(), got.variables.size(), " variables instead of ", n);
}

namespace bl = boost::log;
struct collector : bl::sinks::basic_sink_backend<bl::sinks::synchronized_feeding>
{
    std::vector<std::pair<int, std::string>> got;
    void consume(const bl::record_view& r)
    {
        const auto s = r[cosim::log::severity];
        const auto m = r[bl::expressions::smessage];
        got.emplace_back(s ? static_cast<int>(*s) : -1, m ? *m : "");
    }
};

struct world
{
    pbt::test_case& c;
    fs::path dir;
    std::vector<std::shared_ptr<cosim::fmi::importer>> importers;
    std::vector<std::shared_ptr<cosim::file_cache>> caches;
    std::vector<file> files;
    struct loaded
    {
        std::shared_ptr<cosim::fmi::fmu> p;
        std::size_t importer, m;
        fs::path path;
    };
    std::vector<loaded> fmus; // those we hold
    struct known
    {
        std::weak_ptr<cosim::fmi::fmu> p;
        std::size_t importer, m;
        fs::path path;
    };
    std::vector<known> all; // those that slaves may hold, too
    std::vector<slave> slaves;
    bool persistent = false;

    explicit world(pbt::test_case& c_, fs::path d)
        : c(c_)
        , dir(std::move(d))
    { }

    bool alive(std::size_t importer, const std::string& guid)
    {
        for (auto& f : all)
            if (f.importer == importer && fake::models[f.m].guid == guid && !f.p.expired()) return true;
        return false;
    }
    bool guid_alive(const std::string& guid)
    {
        for (auto& f : all)
            if (fake::models[f.m].guid == guid && !f.p.expired()) return true;
        return false;
    }

    void check_misuse(const char* after)
    {
        PBT_REQUIRE("misuse", fake::misuse.empty(), "after ", after, ": ", fake::misuse);
    }

    void do_import()
    {
        const auto i = c.draw(importers.size() - 1);
        auto& f = c.pick(files);
        auto& m = fake::models[f.m];
        c.note("import " + f.path.filename().string() + " with importer " + std::to_string(i) + " (flaw " + std::to_string(static_cast<int>(f.f)) + ", model " + std::to_string(f.m) + ")");
        // is it alive?
        std::shared_ptr<cosim::fmi::fmu> expected;
        std::size_t expectedModel = f.m;
        for (auto& l : all)
            if (l.importer == i && !f.unpacked && l.path == f.path && !l.p.expired()) {
                expected = l.p.lock();
                expectedModel = l.m;
            }
        if (!expected && f.f == flaw::none)
            for (auto& l : all)
                if (l.importer == i && fake::models[l.m].guid == m.guid && !l.p.expired()) {
                    expected = l.p.lock();
                    expectedModel = l.m;
                }
        const bool sameGuidAlive = alive(i, m.guid);
        std::shared_ptr<cosim::fmi::fmu> got;
        std::string kind;
        const auto msg = thrown([&] { got = f.unpacked ? importers[i]->import_unpacked(f.path) : importers[i]->import(f.path); }, &kind);
        check_misuse("an import");
        if (expected) {
            PBT_REQUIRE("import", got != nullptr, "importing an FMU which is already loaded failed: ", msg);
            PBT_REQUIRE("identity", got == expected, "an FMU which is already loaded was loaded again");
            c.label("loaded already");
            c.nontrivial();
        } else {
            const bool hopeless = f.f == flaw::not_zip || f.f == flaw::no_description || f.f == flaw::no_version || f.f == flaw::other_version || f.f == flaw::no_guid || f.f == flaw::bad_xml;
            const bool onlyWhenNew = f.f == flaw::unparsable || f.f == flaw::not_cosim || f.f == flaw::truncated || f.f == flaw::escaping;
            if (hopeless) {
                PBT_REQUIRE("refusal", got == nullptr, "an invalid FMU was imported (flaw ", static_cast<int>(f.f), ")");
                PBT_REQUIRE("refusal", !msg.empty(), "no FMU and no error");
                c.label("refused");
                c.nontrivial();
                return;
            }
            if (onlyWhenNew && !sameGuidAlive) {
                PBT_REQUIRE("refusal", got == nullptr, "an invalid FMU was imported (flaw ", static_cast<int>(f.f), ")");
                c.label("refused");
                c.nontrivial();
                return;
            }
            PBT_REQUIRE("import", got != nullptr, "a valid FMU was not imported: ", msg);
            for (auto& l : fmus)
                if (l.importer != i) PBT_REQUIRE("identity", l.p != got, "importers share an FMU");
        }
        check_description(*got->model_description(), fake::models[expectedModel]);
        PBT_REQUIRE("description", got->fmi_version() == (fake::models[expectedModel].version == 1 ? cosim::fmi::fmi_version::v1_0 : cosim::fmi::fmi_version::v2_0), "FMI version");
        PBT_REQUIRE("description", got->importer() == importers[i], "importer()");
        fmus.push_back({got, i, expectedModel, f.unpacked ? fs::path() : f.path});
        all.push_back({got, i, expectedModel, f.unpacked ? fs::path() : f.path});
    }

    fake::outcome next;
    std::string nextText; // expected of the last message
    std::vector<fake::message> sent; // in the latest call
    boost::shared_ptr<collector> logged;
    static std::string rendered(const fake::message& g) { return g.number == 2 ? "2%: " + g.text + "/0.500" : g.text; }
    /// The messages are passed on to the log, with a severity which fits.
    void check_log(const char* what)
    {
        if (!logged) return;
        for (auto& g : sent) {
            int severity = -1;
            for (auto& [s, t] : logged->got)
                if (t.find(rendered(g)) != std::string::npos) severity = std::max(severity, s);
            PBT_REQUIRE("log", severity >= 0, what, ": the slave's message is not in the log: ", pbt::quote(rendered(g).substr(0, 300)));
            if (g.st == fake::warning) PBT_REQUIRE("log", severity >= static_cast<int>(cosim::log::warning), what, ": a warning is logged with severity ", severity);
            if (g.st == fake::error || g.st == fake::fatal) PBT_REQUIRE("log", severity >= static_cast<int>(cosim::log::error), what, ": an error is logged with severity ", severity);
        }
    }
    void plan(int errorPercent)
    {
        next = {};
        nextText.clear();
        sent.clear();
        if (logged) logged->got.clear();
        if (c.chance(errorPercent)) next.st = static_cast<fake::status>(c.irange(1, 5));
        if (next.st != fake::ok || c.chance(20)) {
            c.repeat(0, 3, 1, [&](int) {
                fake::message g;
                g.category = c.ascii(4, "ab%");
                g.st = static_cast<fake::status>(c.irange(0, 5));
                g.number = c.irange(0, 2);
                g.text = c.chance(10) ? std::string(5000, 'z') + std::to_string(c.irange(0, 99)) : "message " + std::to_string(c.irange(0, 999));
                if (g.number == 0 && c.chance(30)) g.text += "100% %s %n";
                nextText = rendered(g);
                next.messages.push_back(g);
            });
        }
        fake::script = [this](fake::handle&, const std::string&) {
            auto o = next;
            next = {}; // for one call only
            sent = o.messages;
            return o;
        };
    }

    /// What a call must have led to.
    void judge(slave& s, const char* what, fake::status st, const std::string& kind, const std::string& msg, bool setter, bool stepper)
    {
        check_misuse(what);
        check_log(what);
        const bool good = st == fake::ok || st == fake::warning;
        if (good) {
            PBT_REQUIRE("status", msg.empty(), what, " failed although the slave reported success: ", msg);
            return;
        }
        if (stepper && st == fake::discard) {
            PBT_REQUIRE("status", msg.empty(), what, " threw for a discarded step: ", msg);
            return;
        }
        c.label(std::string("status ") + std::to_string(st));
        c.nontrivial();
        if (setter && st == fake::discard) {
            PBT_REQUIRE("status", kind == "nonfatal", what, ": a discarded value was reported as ", kind.empty() ? "success" : kind);
        } else {
            PBT_REQUIRE("status", kind == "cosim", what, ": status ", static_cast<int>(st), " was reported as ", kind.empty() ? "success" : kind);
            s.broken = true;
        }
        if (!nextText.empty() && !(stepper && st == fake::pending))
            PBT_REQUIRE("message", msg.find(nextText) != std::string::npos, what, ": the slave's message is not in ", pbt::quote(msg.substr(0, 300)), ": ", pbt::quote(nextText.substr(0, 300)));
    }

    void do_instantiate()
    {
        if (fmus.empty()) return;
        auto& f = c.pick(fmus);
        auto& m = fake::models[f.m];
        const std::string name = c.chance(5) ? "" : c.one_of<const char*>({"a", "b", "slave", "\xc3\xa6 %s"});
        int live = 0;
        for (auto& s : slaves)
            if (s.p->fmu() == f.p) ++live;
        plan(0);
        c.note("instantiate model " + std::to_string(f.m) + " as " + name);
        std::shared_ptr<cosim::fmi::slave_instance> p;
        std::string kind;
        const auto before = fake::live_handles;
        // the description may have become unreadable since the FMU was imported
        const bool readable = !c.chance(6);
        m.parses = readable;
        const auto msg = thrown([&] { p = f.p->instantiate_slave(name); }, &kind);
        m.parses = true;
        check_misuse("instantiation");
        const bool good = readable && m.loads && m.instantiates && !name.empty() && !(m.once && live > 0);
        if (!good) {
            PBT_REQUIRE("instantiation", !p, "a slave was instantiated which must not be");
            PBT_REQUIRE("instantiation", kind == (name.empty() ? "std" : "cosim"), "instantiation failed with another kind of exception: ", kind, " ", msg);
            if (!name.empty() && !nextText.empty() && !(m.once && live > 0) && m.loads && readable)
                PBT_REQUIRE("message", msg.find(nextText) != std::string::npos, "instantiation: the slave's message is not in ", pbt::quote(msg.substr(0, 300)));
            PBT_REQUIRE("leak", before == fake::live_handles, "a failed instantiation left a handle behind");
            c.label("not instantiated");
            c.nontrivial();
            return;
        }
        PBT_REQUIRE("instantiation", p != nullptr, "instantiation failed: ", msg);
        PBT_REQUIRE("instantiation", p->fmu() == f.p, "the slave belongs to another FMU");
        slave s;
        s.p = p;
        s.m = f.m;
        s.name = name;
        for (auto h : fake::live_handles)
            if (!before.count(h)) s.h = h;
        PBT_REQUIRE("instantiation", s.h && s.h->instance && s.h->instance_name == name && s.h->m == &m, "there is no slave with this name");
        // now and then it has things to say which are hard to read
        for (auto& v : m.vars) {
            if (v.t == fake::string && c.chance(10)) s.h->null_strings.insert(v.vr);
            if (v.t == fake::boolean && c.chance(30)) s.h->truths[v.vr] = c.one_of<int>({2, -1, 127, 1});
        }
        slaves.push_back(std::move(s));
        check_description(slaves.back().p->model_description(), m);
        c.label("FMI " + std::to_string(m.version));
    }

    std::vector<unsigned> refs(const fake::model& m, fake::type t, int max)
    {
        std::vector<unsigned> of, r;
        for (auto& v : m.vars)
            if (v.t == t) of.push_back(v.vr);
        if (of.empty()) return r;
        c.repeat(0, max, 3, [&](int) { r.push_back(c.pick(of)); });
        return r;
    }

    template<typename V, typename G, typename S>
    void access(slave& s, fake::type t, G&& getAll, S&& setAll, const std::function<V()>& gen, const std::function<bool(const V&, unsigned)>& matches, const std::function<V(unsigned)>& current)
    {
        (void)current;
        auto& m = fake::models[s.m];
        auto r = refs(m, t, 8);
        const bool set = c.chance(50);
        plan(8);
        const auto planned = next.st;
        const auto n = s.h->calls.size();
        std::string kind;
        if (set) {
            // Each reference once, lest the order matter
            std::sort(r.begin(), r.end());
            r.erase(std::unique(r.begin(), r.end()), r.end());
            std::vector<V> v;
            for (std::size_t i = 0; i < r.size(); ++i) v.push_back(gen());
            std::unique_ptr<V[]> flat(new V[v.size() + 1]);
            std::copy(v.begin(), v.end(), flat.get());
            const auto msg = thrown([&] { setAll(gsl::span<const unsigned>(r), gsl::span<const V>(flat.get(), static_cast<std::ptrdiff_t>(v.size()))); }, &kind);
            judge(s, "a setter", s.h->calls.size() > n ? planned : fake::ok, kind, msg, true, false);
            if (!r.empty()) PBT_REQUIRE("values", s.h->calls.size() > n, "values were not set");
            if (planned < fake::error)
                for (std::size_t i = 0; i < r.size(); ++i)
                    PBT_REQUIRE("values", matches(v[i], r[i]), "a value which was set did not reach the slave (type ", t, ", reference ", r[i], ")");
        } else {
            std::unique_ptr<V[]> flat(new V[r.size() + 1]());
            const auto msg = thrown([&] { getAll(gsl::span<const unsigned>(r), gsl::span<V>(flat.get(), static_cast<std::ptrdiff_t>(r.size()))); }, &kind);
            const auto st = s.h->calls.size() > n ? planned : fake::ok;
            // (a getter that discards is a failure)
            judge(s, "a getter", st, kind, msg, false, false);
            if (!r.empty()) PBT_REQUIRE("values", s.h->calls.size() > n, "values were not got");
            if (st == fake::ok || st == fake::warning)
                for (std::size_t i = 0; i < r.size(); ++i)
                    PBT_REQUIRE("values", matches(flat[i], r[i]), "a value is not the slave's (type ", t, ", reference ", r[i], ")");
        }
    }

    void do_access(slave& s)
    {
        auto& h = *s.h;
        auto& p = *s.p;
        switch (c.draw(3)) {
            case 0:
                access<double>(
                    s, fake::real, [&](auto r, auto v) { p.get_real_variables(r, v); }, [&](auto r, auto v) { p.set_real_variables(r, v); },
                    [&] { return c.chance(5) ? std::numeric_limits<double>::infinity() : c.chance(5) ? std::nan("") : c.real(); },
                    [&](const double& v, unsigned r) { auto x = h.numbers[{fake::real, r}]; return x == v || (std::isnan(x) && std::isnan(v)); }, {});
                break;
            case 1:
                access<int>(
                    s, fake::integer, [&](auto r, auto v) { p.get_integer_variables(r, v); }, [&](auto r, auto v) { p.set_integer_variables(r, v); },
                    [&] { return static_cast<int>(c.integer(std::numeric_limits<int>::min(), std::numeric_limits<int>::max())); },
                    [&](const int& v, unsigned r) { return h.numbers[{fake::integer, r}] == v; }, {});
                break;
            case 2:
                access<bool>(
                    s, fake::boolean, [&](auto r, auto v) { p.get_boolean_variables(r, v); }, [&](auto r, auto v) { p.set_boolean_variables(r, v); },
                    [&] { return c.chance(50); },
                    [&](const bool& v, unsigned r) { return (h.numbers[{fake::boolean, r}] != 0) == v; }, {});
                break;
            case 3:
                access<std::string>(
                    s, fake::string, [&](auto r, auto v) { p.get_string_variables(r, v); }, [&](auto r, auto v) { p.set_string_variables(r, v); },
                    [&] { return c.chance(10) ? std::string(500, 'q') : c.ascii(8, "ab %\n\xc3\xa6"); },
                    [&](const std::string& v, unsigned r) { return (h.null_strings.count(r) ? std::string() : h.strings[r]) == v; }, {});
                break;
        }
    }

    void do_slave()
    {
        if (slaves.empty()) return;
        auto& s = c.pick(slaves);
        if (s.broken) return;
        auto& m = fake::models[s.m];
        std::string kind, msg;
        switch (s.state) {
            case 0: {
                s.start = time_point(std::chrono::nanoseconds(c.integer(-1000000000, 5000000000LL)));
                s.now = s.start;
                if (c.chance(50)) s.stop = s.start + std::chrono::nanoseconds(c.integer(0, 100000000000LL));
                if (c.chance(50)) s.tol = c.real();
                const bool failLate = c.chance(30);
                plan(10);
                auto planned = next.st;
                if (m.version == 2 && failLate) {
                    // the second of the two calls it takes
                    auto o = next;
                    fake::script = [o](fake::handle&, const std::string& fn) { return fn == "enter_initialization" ? o : fake::outcome{}; };
                }
                msg = thrown([&] { s.p->setup(s.start, s.stop, s.tol); }, &kind);
                judge(s, "setup()", m.version == 2 ? planned : fake::ok, kind, msg, false, false);
                if (s.broken) break;
                if (m.version == 2) {
                    PBT_REQUIRE("setup", s.h->st == fake::handle::initializing, "the slave is not in initialisation mode after setup()");
                    check_times(s);
                    PBT_REQUIRE("setup", s.h->has_tolerance == s.tol.has_value() && (!s.tol || s.h->tolerance == *s.tol), "another tolerance");
                }
                s.state = 1;
                break;
            }
            case 1: {
                if (c.chance(60)) {
                    do_access(s);
                    break;
                }
                plan(8);
                const auto planned = next.st;
                msg = thrown([&] { s.p->start_simulation(); }, &kind);
                judge(s, "start_simulation()", planned, kind, msg, false, false);
                if (s.broken) break;
                PBT_REQUIRE("setup", s.h->st == fake::handle::stepping, "the slave is not ready to step after start_simulation()");
                check_times(s);
                s.state = 2;
                break;
            }
            case 2: {
                const int k = c.weighted({5, 5, 1});
                if (k == 0) {
                    do_access(s);
                    break;
                }
                plan(8);
                const auto planned = next.st;
                if (k == 1) {
                    auto dt = std::chrono::nanoseconds(c.integer(1, 5000000000LL));
                    if (s.stop && s.now + dt > *s.stop) break;
                    auto r = cosim::step_result::complete;
                    msg = thrown([&] { r = s.p->do_step(s.now, dt); }, &kind);
                    judge(s, "do_step()", planned, kind, msg, false, true);
                    PBT_REQUIRE("step", s.h->steps.size() == s.steps + 1, "the slave did not do one step");
                    ++s.steps;
                    PBT_REQUIRE("step", s.h->steps.back().first == cosim::to_double_time_point(s.now) && s.h->steps.back().second == cosim::to_double_duration(dt, s.now), "the slave did another step: ", s.h->steps.back().first, " + ", s.h->steps.back().second);
                    if (!s.broken) PBT_REQUIRE("status", (r == cosim::step_result::complete) == (planned != fake::discard), "the result of a step is not the slave's");
                    s.now += dt;
                    c.label("steps");
                } else {
                    msg = thrown([&] { s.p->end_simulation(); }, &kind);
                    judge(s, "end_simulation()", planned, kind, msg, false, false);
                    PBT_REQUIRE("terminate", s.h->terminations == 1, "the slave was not terminated");
                    s.state = 3;
                }
                break;
            }
            default:
                if (c.chance(30)) do_access(s);
        }
    }

    void check_times(slave& s)
    {
        PBT_REQUIRE("setup", s.h->start == cosim::to_double_time_point(s.start), "start time ", s.h->start);
        PBT_REQUIRE("setup", s.h->has_stop == s.stop.has_value() && (!s.stop || s.h->stop == cosim::to_double_time_point(*s.stop)), "stop time ", s.h->stop);
    }

    void drop_slave()
    {
        if (slaves.empty()) return;
        const auto i = c.draw(slaves.size() - 1);
        c.note("drop slave " + std::to_string(i));
        plan(20);
        const auto h = slaves[i].h;
        const bool started = slaves[i].state == 2 && !slaves[i].broken;
        const auto terminations = h->terminations;
        (void)terminations;
        bool terminated = false;
        fake::script = [&, this](fake::handle&, const std::string& fn) {
            terminated |= fn == "terminate";
            return next;
        };
        slaves.erase(slaves.begin() + static_cast<std::ptrdiff_t>(i));
        if (started) PBT_REQUIRE("terminate", terminated, "a running slave was not terminated before it was freed");
        check_misuse("a slave was dropped");
        PBT_REQUIRE("leak", !fake::live_handles.count(h), "a slave's handle was not freed");
        fake::script = nullptr;
    }

    void update()
    {
        auto& f = c.pick(files);
        if (f.unpacked || f.f != flaw::none) return;
        if (guid_alive(fake::models[f.m].guid)) return;
        for (auto& g : files)
            if (&g != &f && fake::models[g.m].guid == fake::models[f.m].guid) return;
        const auto v = c.chance(20) ? 3 - fake::models[f.m].version : fake::models[f.m].version;
        c.note("update " + f.path.filename().string());
        f.m = gen_model(c, fake::models[f.m].guid, v, flaw::none);
        usleep(10000);
        write_contents(c, f);
        c.label("updated");
    }

    /// A process which imports and does not survive.
    void crash()
    {
        if (!persistent) return;
        auto& f = c.pick(files);
        if (f.unpacked || guid_alive(fake::models[f.m].guid)) return;
        const bool dies = c.chance(60);
        const rlim_t limit = static_cast<rlim_t>(c.one_of<int>({0, 10, 1000, 60000, 120000, 199999}));
        c.note("another process imports " + f.path.filename().string() + (dies ? " and dies" : " and fails") + " when a file reaches " + std::to_string(limit) + " bytes");
        const auto pid = fork();
        if (pid == 0) {
            signal(SIGXFSZ, dies ? SIG_DFL : SIG_IGN);
            rlimit none{0, 0};
            setrlimit(RLIMIT_CORE, &none);
            try {
                // The description is looked at in a temporary directory first.
                auto cache = std::make_shared<cosim::persistent_file_cache>(dir / "cache");
                struct late : cosim::file_cache
                {
                    std::shared_ptr<cosim::file_cache> c;
                    rlim_t limit;
                    std::unique_ptr<directory_rw> get_directory_rw(std::string_view k) override
                    {
                        auto d = c->get_directory_rw(k);
                        rlimit l{limit, limit};
                        setrlimit(RLIMIT_FSIZE, &l);
                        return d;
                    }
                    std::unique_ptr<directory_ro> get_directory_ro(std::string_view k) override { return c->get_directory_ro(k); }
                };
                auto l = std::make_shared<late>();
                l->c = cache;
                l->limit = limit;
                auto i = cosim::fmi::importer::create(l);
                auto fmu = i->import(f.path);
                fmu.reset();
            } catch (...) {
            }
            _exit(0);
        }
        int st = 0;
        waitpid(pid, &st, 0);
        if (WIFSIGNALED(st)) {
            c.label("died while unpacking");
            c.nontrivial();
        } else
            c.label("another process imported");
    }

    void finish()
    {
        fake::script = nullptr;
        // in any order
        while (!slaves.empty() || !fmus.empty() || !importers.empty()) {
            switch (c.draw(2)) {
                case 0:
                    if (!slaves.empty()) drop_slave();
                    break;
                case 1:
                    if (!fmus.empty()) fmus.erase(fmus.begin() + static_cast<std::ptrdiff_t>(c.draw(fmus.size() - 1)));
                    break;
                case 2:
                    if (!importers.empty()) importers.pop_back();
                    break;
            }
            if (slaves.empty() && c.draw(1) == 0) {
                fmus.clear();
                importers.clear();
            }
            if (c.draw(3) == 0) {
                while (!slaves.empty()) drop_slave();
            }
        }
        caches.clear();
        check_misuse("the end");
        PBT_REQUIRE("leak", fake::live_handles.empty(), fake::live_handles.size(), " handles were never freed");
        PBT_REQUIRE("leak", fake::live_lists.empty(), fake::live_lists.size(), " variable lists were never freed");
        PBT_REQUIRE("leak", fake::live_contexts.empty(), fake::live_contexts.size(), " contexts were never freed");
        PBT_REQUIRE("leak", fake::live_dlls == 0 && fake::live_instances == 0, "libraries or slave instances were never freed");
    }
};

void run(pbt::test_case& c)
{
    fake::models.clear();
    fake::misuse.clear();
    fake::script = nullptr;
    fake::live_handles.clear();
    fake::live_contexts.clear();
    fake::live_lists.clear();
    fake::live_dlls = fake::live_instances = 0;
    const fs::path dir = fs::path(pbt::scratch()) / "c35";
    fs::remove_all(dir);
    fs::create_directories(dir);
    {
        world w(c, dir);
        auto core = bl::core::get();
        core->remove_all_sinks();
        core->set_logging_enabled(false);
        if (c.chance(60)) {
            w.logged = boost::make_shared<collector>();
            core->add_sink(boost::make_shared<bl::sinks::synchronous_sink<collector>>(w.logged));
            core->set_logging_enabled(true);
        }
        // importers and their caches
        w.persistent = c.chance(50);
        const int ni = c.chance(30) ? 2 : 1;
        for (int i = 0; i < ni; ++i) {
            if (w.persistent) w.caches.push_back(std::make_shared<cosim::persistent_file_cache>(dir / "cache"));
            else w.caches.push_back(std::make_shared<cosim::temporary_file_cache>());
            w.importers.push_back(cosim::fmi::importer::create(w.caches.back()));
        }
        // FMUs
        const auto nf = c.irange(1, 4);
        for (int i = 0; i < nf; ++i) {
            file f;
            f.unpacked = c.chance(20);
            std::string guid = c.one_of<const char*>({"", "{", "../", "a/b ", "\xc3\xa6%2F", "8c4e810f-3df3-4a00-8276-176fa3c9f000-8c4e810f-3df3-4a00-8276-176fa3c9f0"}) + std::string("guid-") + std::to_string(i);
            if (guid[0] == '{') guid += "}";
            f.f = c.chance(25) ? static_cast<flaw>(c.irange(1, 12)) : flaw::none;
            if (f.unpacked && (f.f == flaw::not_zip || f.f == flaw::truncated || f.f == flaw::escaping)) f.f = flaw::none;
            f.path = dir / ("fmu" + std::to_string(i) + (f.unpacked ? "" : ".fmu"));
            f.m = gen_model(c, guid, c.irange(1, 2), f.f);
            write_contents(c, f);
            w.files.push_back(f);
            if (f.f == flaw::none && c.chance(25)) {
                // the same FMU in another place
                auto g = f;
                g.path = dir / "elsewhere" / f.path.filename();
                g.unpacked = false;
                if (f.unpacked) g.path += ".fmu";
                write_contents(c, g);
                w.files.push_back(g);
            }
        }
        c.repeat(3, c.sized(15, 120), 40, [&](int) {
            switch (c.weighted({4, 4, 28, 2, 1, 1, 1})) {
                case 0: w.do_import(); break;
                case 1: w.do_instantiate(); break;
                case 2: w.do_slave(); break;
                case 3: w.drop_slave(); break;
                case 4:
                    if (!w.fmus.empty()) w.fmus.erase(w.fmus.begin() + static_cast<std::ptrdiff_t>(c.draw(w.fmus.size() - 1)));
                    w.check_misuse("an FMU was dropped");
                    break;
                case 5: w.update(); break;
                case 6: w.crash(); break;
            }
        });
        w.finish();
    }
    PBT_REQUIRE("containment", !fs::exists(dir / "escaped") && !fs::exists(dir.parent_path() / "escaped"), "an FMU's file ended up outside the cache");
    fs::remove_all(dir);
}
} // namespace

int main(int argc, char** argv)
{
    pbt::spec s;
    s.id = "C35";
    s.rule = "an FMU is already loaded, is refused, reports something other than success, or another process died while unpacking it";
    s.quick_cases = 6000;
    s.thorough_cases = 120000;
    s.run = run;
    return pbt::main(argc, argv, s);
}
