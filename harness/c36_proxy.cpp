// C36: remote slaves (proxyfmu) are found, described and driven like local ones.
#include "fmu_stub.hpp"
#include "fstree.hpp"

#include <cosim/error.hpp>
#include <cosim/exception.hpp>
#include <cosim/orchestration.hpp>
#include <cosim/proxy/proxy_uri_sub_resolver.hpp>
#include <cosim/proxy/remote_fmu.hpp>
#include <cosim/proxy/remote_slave.hpp>
#include <cosim/slave.hpp>
#include <cosim/time.hpp>
#include <cosim/uri.hpp>

#include <proxyfmu/client/proxy_fmu.hpp>

#include <boost/log/core.hpp>

#include <cmath>
#include <cstring>
#include <limits>

namespace fs = std::filesystem;
namespace pfmi = proxyfmu::fmi;

namespace
{
using cosim::value_reference;

// ---- the made-up server -----------------------------------------------------

struct disconnected : std::runtime_error
{
    using std::runtime_error::runtime_error;
};

enum class reply { ok, bad, lost };

struct instance
{
    std::string file, name;
    enum { fresh, setUp, initializing, stepping, terminated, freed } state = fresh;
    bool failed = false; // something was refused, or the connection lost
    double start = -1, stop = -1, tolerance = -1;
    std::vector<std::pair<double, double>> steps;
    std::map<value_reference, double> reals;
    std::map<value_reference, int> ints;
    std::map<value_reference, bool> bools;
    std::map<value_reference, std::string> strings;
    std::vector<std::string> calls;
    int terminations = 0, freeings = 0;
    bool destroyed = false;
};

struct connection
{
    std::string file;
    std::optional<std::pair<std::string, int>> remote;
};

std::map<std::string, pfmi::model_description> descriptions; // by canonical path
std::vector<connection> connections;
std::vector<std::shared_ptr<instance>> instances;
std::function<reply(const std::string&)> script;
std::string misuse;

void misused(const std::string& what)
{
    if (misuse.empty()) misuse = what;
}

class fake_slave : public pfmi::slave
{
public:
    explicit fake_slave(std::shared_ptr<instance> i)
        : pfmi::slave(i->name)
        , i_(std::move(i))
    { }
    ~fake_slave() override
    {
        i_->destroyed = true;
    }
    const pfmi::model_description& get_model_description() const override { return descriptions.at(i_->file); }
    bool setup_experiment(double start, double stop, double tolerance) override
    {
        expect(i_->state == instance::fresh, "setup_experiment");
        if (!answer("setup_experiment")) return false;
        i_->state = instance::setUp;
        i_->start = start;
        i_->stop = stop;
        i_->tolerance = tolerance;
        return true;
    }
    bool enter_initialization_mode() override
    {
        expect(i_->state == instance::setUp, "enter_initialization_mode");
        if (!answer("enter_initialization_mode")) return false;
        i_->state = instance::initializing;
        return true;
    }
    bool exit_initialization_mode() override
    {
        expect(i_->state == instance::initializing, "exit_initialization_mode");
        if (!answer("exit_initialization_mode")) return false;
        i_->state = instance::stepping;
        return true;
    }
    bool step(double t, double dt) override
    {
        expect(i_->state == instance::stepping, "step");
        i_->steps.emplace_back(t, dt);
        return answer("step");
    }
    bool reset() override
    {
        misused("reset() was called");
        return false;
    }
    bool terminate() override
    {
        // After a failure anything is allowed here.
        if (!i_->failed) expect(i_->state == instance::stepping, "terminate");
        if (i_->state == instance::terminated) misused("terminate() was called twice");
        ++i_->terminations;
        i_->state = instance::terminated;
        return answer("terminate");
    }
    void freeInstance() override
    {
        if (i_->state == instance::freed) misused("freeInstance() was called twice");
        if (i_->state == instance::stepping && !i_->failed) misused("freeInstance() without terminate()");
        ++i_->freeings;
        i_->state = instance::freed;
        answer("freeInstance");
    }
    bool get_integer(const std::vector<pfmi::value_ref>& vr, std::vector<int>& v) override { return get(vr, v, i_->ints, "get_integer"); }
    bool get_real(const std::vector<pfmi::value_ref>& vr, std::vector<double>& v) override { return get(vr, v, i_->reals, "get_real"); }
    bool get_string(const std::vector<pfmi::value_ref>& vr, std::vector<std::string>& v) override { return get(vr, v, i_->strings, "get_string"); }
    bool get_boolean(const std::vector<pfmi::value_ref>& vr, std::vector<bool>& v) override { return get(vr, v, i_->bools, "get_boolean"); }
    bool set_integer(const std::vector<pfmi::value_ref>& vr, const std::vector<int>& v) override { return set(vr, v, i_->ints, "set_integer"); }
    bool set_real(const std::vector<pfmi::value_ref>& vr, const std::vector<double>& v) override { return set(vr, v, i_->reals, "set_real"); }
    bool set_string(const std::vector<pfmi::value_ref>& vr, const std::vector<std::string>& v) override { return set(vr, v, i_->strings, "set_string"); }
    bool set_boolean(const std::vector<pfmi::value_ref>& vr, const std::vector<bool>& v) override { return set(vr, v, i_->bools, "set_boolean"); }

private:
    bool answer(const std::string& fn)
    {
        i_->calls.push_back(fn);
        const auto r = script ? script(fn) : reply::ok;
        if (r != reply::ok) i_->failed = true;
        if (r == reply::lost) throw disconnected("connection lost in " + fn);
        return r == reply::ok;
    }
    void expect(bool ok, const std::string& fn)
    {
        if (!ok) misused(fn + "() in the wrong state (" + std::to_string(i_->state) + ")");
    }
    template<typename T>
    bool get(const std::vector<pfmi::value_ref>& vr, std::vector<T>& v, std::map<value_reference, T>& from, const std::string& fn)
    {
        expect(i_->state != instance::freed && i_->state != instance::terminated && i_->state != instance::fresh, fn);
        if (vr.empty() || vr.size() != v.size()) misused(fn + "() with " + std::to_string(vr.size()) + " references and " + std::to_string(v.size()) + " values");
        if (!answer(fn)) return false;
        for (std::size_t i = 0; i < vr.size(); ++i) v.at(i) = from[vr[i]];
        return true;
    }
    template<typename T>
    bool set(const std::vector<pfmi::value_ref>& vr, const std::vector<T>& v, std::map<value_reference, T>& to, const std::string& fn)
    {
        expect(i_->state != instance::freed && i_->state != instance::terminated && i_->state != instance::fresh, fn);
        if (vr.empty() || vr.size() != v.size()) misused(fn + "() with " + std::to_string(vr.size()) + " references and " + std::to_string(v.size()) + " values");
        if (!answer(fn)) return false;
        for (std::size_t i = 0; i < vr.size(); ++i) to[vr[i]] = v[i];
        return true;
    }

    std::shared_ptr<instance> i_;
};
} // namespace

namespace proxyfmu::client
{
proxy_fmu::proxy_fmu(const filesystem::path& fmuPath, const std::optional<remote_info>& remote)
    : file_(fs::weakly_canonical(fmuPath).string())
{
    connection c;
    c.file = file_;
    if (remote) c.remote.emplace(remote->host(), remote->port());
    connections.push_back(c);
    if (script && script("connect") != reply::ok) throw disconnected("no connection");
    if (!descriptions.count(file_)) throw std::runtime_error("no such FMU: " + file_);
}
const fmi::model_description& proxy_fmu::get_model_description() const
{
    return descriptions.at(file_);
}
std::unique_ptr<fmi::slave> proxy_fmu::new_instance(const std::string& instanceName)
{
    if (script && script("new_instance") != reply::ok) throw disconnected("no connection");
    auto i = std::make_shared<instance>();
    i->file = file_;
    i->name = instanceName;
    instances.push_back(i);
    return std::make_unique<fake_slave>(i);
}
} // namespace proxyfmu::client

namespace
{
template<typename F>
std::string thrown(F&& f, std::string& kind)
{
    kind.clear();
    try {
        f();
    } catch (const pbt::failure&) {
        throw;
    } catch (const cosim::error& e) {
        kind = e.code() == make_error_code(cosim::errc::model_error) ? "model" : e.code() == make_error_code(cosim::errc::bad_file) ? "file" : "cosim";
        return e.what();
    } catch (const disconnected& e) {
        kind = "lost";
        return e.what();
    } catch (const std::invalid_argument& e) {
        kind = "argument";
        return e.what();
    } catch (const std::exception& e) {
        kind = "std";
        return e.what();
    }
    return "";
}

// ---- descriptions -----------------------------------------------------------

pfmi::model_description gen_description(pbt::test_case& c, int n)
{
    pfmi::model_description d;
    d.guid = "{" + std::to_string(n) + c.ascii(6, "0a-") + "}";
    d.author = c.ascii(6, "ab %");
    d.version = c.ascii(4, "01.");
    d.modelName = "model" + std::to_string(n);
    d.modelIdentifier = "identifier";
    d.description = c.ascii(8, "ab %\n");
    d.fmiVersion = "2.0";
    d.generationTool = "tool";
    c.repeat(0, 10, 4, [&](int k) {
        pfmi::scalar_variable v;
        v.name = c.chance(20) ? c.ascii(12, "ab.[],1 \xc3\xa6<&\"") : "v" + std::to_string(k);
        v.description = "something";
        v.vr = c.chance(10) ? static_cast<unsigned>(c.one_of<std::int64_t>({0, 4294967295LL, 2147483648LL})) : static_cast<unsigned>(c.range(0, 8));
        v.causality = c.one_of<const char*>({"parameter", "calculatedParameter", "calculated_parameter", "input", "output", "local", "independent"});
        v.variability = c.one_of<const char*>({"constant", "fixed", "tunable", "discrete", "continuous"});
        const bool start = c.chance(60);
        switch (c.draw(3)) {
            case 0: {
                pfmi::integer x;
                x.min = 1000;
                if (start) x.start = static_cast<int>(c.integer(std::numeric_limits<int>::min(), std::numeric_limits<int>::max()));
                v.typeAttribute = x;
                break;
            }
            case 1: {
                pfmi::real x;
                x.max = 1000;
                if (start) x.start = c.real();
                v.typeAttribute = x;
                break;
            }
            case 2: {
                pfmi::string x;
                if (start) x.start = c.ascii(8, "ab %\n");
                v.typeAttribute = x;
                break;
            }
            default: {
                pfmi::boolean x;
                if (start) x.start = c.chance(50);
                v.typeAttribute = x;
            }
        }
        d.modelVariables.push_back(v);
    });
    return d;
}

bool same(const cosim::scalar_value& a, const cosim::scalar_value& b)
{
    if (a.index() != b.index()) return false;
    if (auto d = std::get_if<double>(&a)) return std::memcmp(d, &std::get<double>(b), sizeof(double)) == 0;
    return a == b;
}

void check_description(const cosim::model_description& got, const pfmi::model_description& want)
{
    PBT_REQUIRE("description", got.name == want.modelName, "name ", got.name);
    PBT_REQUIRE("description", got.uuid == want.guid, "UUID ", got.uuid);
    PBT_REQUIRE("description", got.author == want.author, "author ", got.author);
    PBT_REQUIRE("description", got.description == want.description, "description");
    PBT_REQUIRE("description", got.version == want.version, "version ", pbt::quote(got.version), " instead of ", pbt::quote(want.version));
    PBT_REQUIRE("description", got.variables.size() == want.modelVariables.size(), got.variables.size(), " variables");
    for (std::size_t i = 0; i < got.variables.size(); ++i) {
        auto& g = got.variables[i];
        auto& w = want.modelVariables[i];
        PBT_REQUIRE("description", g.name == w.name, "variable ", i, " is ", pbt::quote(g.name));
        PBT_REQUIRE("description", g.reference == w.vr, w.name, ": reference ", g.reference);
        using vt = cosim::variable_type;
        const vt types[] = {vt::integer, vt::real, vt::string, vt::boolean};
        PBT_REQUIRE("description", g.type == types[w.typeAttribute.index()], w.name, ": type");
        using vc = cosim::variable_causality;
        const std::map<std::string, vc> cs = {{"parameter", vc::parameter}, {"calculatedParameter", vc::calculated_parameter}, {"calculated_parameter", vc::calculated_parameter}, {"input", vc::input}, {"output", vc::output}, {"local", vc::local}, {"independent", vc::local}};
        PBT_REQUIRE("description", g.causality == cs.at(w.causality), w.name, ": causality ", w.causality, " became ", static_cast<int>(g.causality));
        using vv = cosim::variable_variability;
        const std::map<std::string, vv> vs = {{"constant", vv::constant}, {"fixed", vv::fixed}, {"tunable", vv::tunable}, {"discrete", vv::discrete}, {"continuous", vv::continuous}};
        PBT_REQUIRE("description", g.variability == vs.at(w.variability), w.name, ": variability ", w.variability, " became ", static_cast<int>(g.variability));
        std::optional<cosim::scalar_value> start;
        std::visit([&](auto& x) { if (x.start) start = *x.start; }, w.typeAttribute);
        PBT_REQUIRE("description", g.start.has_value() == start.has_value() && (!start || same(*g.start, *start)), w.name, ": start value");
    }
}

// ---- the run ----------------------------------------------------------------

struct other_model : cosim::model
{
    std::shared_ptr<const cosim::model_description> description() const noexcept override { return nullptr; }
    std::shared_ptr<cosim::slave> instantiate(std::string_view) override { return nullptr; }
};

/// Accepts all URIs but those for the proxy, and for files.
struct other_resolver : cosim::model_uri_sub_resolver
{
    std::shared_ptr<cosim::model> lookup_model(const cosim::uri& u) override
    {
        seen = std::string(u.view());
        if (u.scheme() && *u.scheme() != "proxyfmu" && *u.scheme() != "file") return std::make_shared<other_model>();
        return nullptr;
    }
    std::string seen;
};

struct slave
{
    std::shared_ptr<cosim::slave> p;
    std::shared_ptr<instance> i;
    int state = 0; // 0 new, 1 initialising, 2 running, 3 ended
    bool broken = false, lost = false;
    cosim::time_point now;
};

struct world
{
    pbt::test_case& c;
    fs::path dir;
    std::vector<fs::path> files;
    std::vector<std::pair<std::shared_ptr<cosim::model>, std::string>> models;
    std::vector<slave> slaves;
    cosim::model_uri_resolver resolver;
    std::shared_ptr<other_resolver> other = std::make_shared<other_resolver>();

    world(pbt::test_case& c_, fs::path d)
        : c(c_)
        , dir(std::move(d))
    {
        resolver.add_sub_resolver(std::make_shared<cosim::proxy::proxy_uri_sub_resolver>());
        resolver.add_sub_resolver(other);
    }

    std::string encoded(const std::string& s)
    {
        // what must be encoded, and sometimes more
        std::string r;
        for (char ch : s) {
            const bool must = !std::isalnum(static_cast<unsigned char>(ch)) && !std::strchr("-._~/", ch);
            if (must || (ch != '/' && ch != '.' && c.chance(3))) {
                char b[4];
                std::snprintf(b, sizeof b, "%%%02X", static_cast<unsigned char>(ch));
                r += b;
            } else
                r += ch;
        }
        return r;
    }

    void do_lookup()
    {
        const auto& f = c.pick(files);
        const auto base = c.pick(files).parent_path() / "config.xml";
        const auto baseUri = cosim::path_to_file_uri(base);
        connections.clear();
        std::string auth, host = "localhost";
        std::optional<int> port;
        bool noAuthority = false;
        switch (c.weighted({10, 6, 4, 2, 2, 1})) {
            case 0: auth = host; break;
            case 1: port = c.one_of<int>({1, 80, 9090, 65535}); auth = "localhost:" + std::to_string(*port); break;
            case 2: port = c.irange(1024, 65535); host = c.one_of<const char*>({"127.0.0.1", "host.example", "a-b"}); auth = host + ":" + std::to_string(*port); break;
            case 3: port = 9090; host = "::1"; auth = "[::1]:9090"; break;
            case 4: auth = c.one_of<const char*>({"localhost:", "localhost:x", "localhost:9090x", "localhost:99999999999", "localhost:-5", "localhost:0x10", "localhost:70000", "localhost:0", "localhost:1:9090", "a:b:9090"}); port = -2; break;
            case 5: noAuthority = true; port = -2; break;
        }
        enum { relative, absolute, fileUri, missing, notFile, otherScheme, noQuery } how;
        how = static_cast<decltype(how)>(c.weighted({6, 3, 3, 1, 1, 2, 1}));
        std::string q;
        auto rel = f.lexically_relative(base.parent_path()).string();
        switch (how) {
            case relative: q = "file=" + encoded(rel); break;
            case absolute: q = "file=" + encoded(f.string()); break;
            case fileUri: q = "file=" + std::string(cosim::path_to_file_uri(f).view()); break;
            case missing: q = "file=" + encoded(rel) + "x"; break;
            case notFile: q = c.one_of<const char*>({"x=1&file=", "profile=", "File=", "", "x", "filename=", "file", "file:", "files="}) + encoded(rel); break;
            case otherScheme: q = c.one_of<const char*>({"file=", "x=1&file=", "profile="}) + encoded(rel); break;
            case noQuery: break;
        }
        if (how == otherScheme) {
            // Not for the proxy at all, with any base.
            const std::string s = c.one_of<const char*>({"other", "http", "other", "http", "proxy-fmu", "proxyfmus", "proxy"});
            const bool reference = c.chance(40);
            const auto u = reference ? "model?" + q : s + "://" + (c.chance(50) ? "localhost" : "host") + "/model?" + q;
            const cosim::uri b = reference || c.chance(60) ? cosim::uri(s + "://host/dir/config.xml") : baseUri;
            c.note("look up " + u + " from " + std::string(b.view()));
            std::string kind;
            std::shared_ptr<cosim::model> m;
            const auto msg = thrown([&] { m = resolver.lookup_model(b, cosim::uri(u)); }, kind);
            PBT_REQUIRE("other-scheme", kind.empty() && m && connections.empty(), u, " was not left to its resolver: ", msg);
            PBT_REQUIRE("other-scheme", other->seen == (reference ? s + "://host/dir/" + u : u), u, " became ", other->seen);
            c.label("another scheme");
            c.nontrivial();
            return;
        }
        const auto u = std::string(noAuthority ? "proxyfmu:" : "proxyfmu://") + auth + c.one_of<const char*>({"", "", "/"}) + (how == noQuery ? "" : "?" + q);
        const bool direct = how != relative && how != missing && c.chance(30);
        c.note("look up " + u + (direct ? "" : " from " + std::string(baseUri.view())));
        const bool refused = port == -2 || how == missing || how == notFile || how == noQuery;
        const bool unreachable = !refused && c.chance(8);
        if (unreachable) script = [](const std::string& fn) { return fn == "connect" ? reply::lost : reply::ok; };
        std::string kind;
        std::shared_ptr<cosim::model> m;
        const auto msg = thrown([&] { m = direct ? resolver.lookup_model(cosim::uri(u)) : resolver.lookup_model(baseUri, cosim::uri(u)); }, kind);
        script = nullptr;
        if (refused) {
            PBT_REQUIRE("bad-uri", !kind.empty(), u, " was accepted");
            PBT_REQUIRE("bad-uri", connections.empty(), u, " was refused, but a connection made");
            if (how == missing && port != -2) PBT_REQUIRE("bad-uri", kind == "file", u, ": ", kind, " ", msg);
            c.label("refused");
            c.nontrivial();
            return;
        }
        if (unreachable) {
            PBT_REQUIRE("unreachable", kind == "lost", u, ": ", kind, " ", msg);
            c.label("no connection");
            return;
        }
        PBT_REQUIRE("lookup", kind.empty(), u, " from ", std::string(baseUri.view()), ": ", msg);
        PBT_REQUIRE("lookup", m && connections.size() == 1, u, ": ", connections.size(), " connections");
        const auto& k = connections[0];
        PBT_REQUIRE("lookup", k.file == f.string(), u, " from ", std::string(baseUri.view()), ": got ", k.file, " instead of ", f.string());
        if (port) PBT_REQUIRE("lookup", k.remote && k.remote->first == host && k.remote->second == *port, u, ": connected to ", k.remote ? k.remote->first + " " + std::to_string(k.remote->second) : std::string("a new process"));
        else PBT_REQUIRE("lookup", !k.remote, u, ": connected to ", k.remote->first, " ", k.remote->second);
        check_description(*m->description(), descriptions.at(f.string()));
        if (how == relative && rel.find("..") != std::string::npos) c.nontrivial();
        if (how == absolute || how == fileUri) c.nontrivial();
        models.emplace_back(m, f.string());
        c.label("found");
    }

    void do_instantiate()
    {
        if (models.empty() || slaves.size() >= 4) return;
        const auto& m = c.pick(models);
        const auto n = instances.size();
        const auto name = "slave " + std::to_string(n);
        const bool lost = c.chance(5);
        if (lost) script = [](const std::string& fn) { return fn == "new_instance" ? reply::lost : reply::ok; };
        c.note("instantiate " + name + (lost ? ", connection lost" : ""));
        std::string kind;
        slave s;
        const auto msg = thrown([&] { s.p = m.first->instantiate(name); }, kind);
        script = nullptr;
        if (lost) {
            PBT_REQUIRE("instantiate", kind == "lost", "no instance, but ", kind, " ", msg);
            return;
        }
        PBT_REQUIRE("instantiate", kind.empty() && s.p, "no instance: ", msg);
        PBT_REQUIRE("instantiate", instances.size() == n + 1 && instances.back()->name == name && instances.back()->file == m.second, "not instantiated as asked");
        s.i = instances.back();
        check_description(s.p->model_description(), descriptions.at(m.second));
        slaves.push_back(s);
        c.label("instantiated");
    }

    reply planned = reply::ok;
    int planned_at = 0; // the how-manieth call
    void plan(int percent)
    {
        planned = c.chance(percent) ? (c.chance(60) ? reply::bad : reply::lost) : reply::ok;
        planned_at = c.chance(30) ? 1 : 0;
        if (planned != reply::ok) c.note(std::string(planned == reply::bad ? "  (bad status" : "  (connection lost") + " at call " + std::to_string(planned_at) + ")");
        script = [this, n = 0](const std::string&) mutable { return n++ == planned_at ? planned : reply::ok; };
    }

    /// An operation consisting of the given calls.
    bool judge(slave& s, const std::string& what, std::size_t callsBefore, const std::vector<std::string>& expected, const std::string& kind, const std::string& msg)
    {
        script = nullptr;
        PBT_REQUIRE("misuse", misuse.empty(), what, ": ", misuse);
        std::vector<std::string> want(expected);
        bool fails = planned != reply::ok && static_cast<std::size_t>(planned_at) < expected.size();
        if (fails) want.resize(static_cast<std::size_t>(planned_at) + 1);
        const std::vector<std::string> got(s.i->calls.begin() + static_cast<std::ptrdiff_t>(callsBefore), s.i->calls.end());
        auto join = [](const std::vector<std::string>& v) { std::string r; for (auto& x : v) r += x + " "; return r; };
        PBT_REQUIRE("calls", got == want, what, ": calls ", join(got), "instead of ", join(want));
        if (fails) {
            PBT_REQUIRE("status", kind == (planned == reply::bad ? "model" : "lost"), what, " failed, but ", kind.empty() ? "nothing was thrown" : kind + " " + msg);
            if (planned == reply::lost) s.lost = true;
            c.nontrivial();
            c.label("failures");
        } else
            PBT_REQUIRE("status", kind.empty(), what, " failed: ", msg);
        return !fails;
    }

    std::vector<value_reference> refs()
    {
        std::vector<value_reference> r;
        const int many = c.chance(3) ? c.irange(50, 300) : 0;
        c.repeat(many, many + 6, many + 2, [&](int) { r.push_back(c.chance(5) ? 4294967295u : static_cast<value_reference>(c.range(0, 8))); });
        return r;
    }

    template<typename T, typename Map, typename Gen, typename Set>
    void set_one(slave& s, Map& m, const char* fn, Gen&& gen, Set&& set)
    {
        auto r = refs();
        std::unique_ptr<T[]> v(new T[r.size() + 1]);
        for (std::size_t i = 0; i < r.size(); ++i) v[i] = gen();
        auto want = m;
        for (std::size_t i = 0; i < r.size(); ++i) want[r[i]] = v[i];
        const auto before = m;
        plan(r.empty() ? 0 : 12);
        const auto n = s.i->calls.size();
        std::string kind;
        const auto msg = thrown([&] { set(r, gsl::span<const T>(v.get(), r.size())); }, kind);
        // It doesn't matter whether nothing is sent.
        const bool ok = judge(s, fn, n, s.i->calls.size() == n && r.empty() ? std::vector<std::string>{} : std::vector<std::string>{fn}, kind, msg);
        if (!ok) want = before;
        bool same_values = want.size() == m.size();
        for (auto& [k, x] : want) same_values = same_values && m.count(k) && equal(m[k], x);
        PBT_REQUIRE("values", same_values, fn, ": the slave has other values");
    }
    static bool equal(double a, double b) { return std::memcmp(&a, &b, sizeof a) == 0; }
    template<typename T>
    static bool equal(const T& a, const T& b) { return a == b; }

    template<typename T, typename Map, typename Get>
    void get_one(slave& s, Map& m, const char* fn, T poison, Get&& get)
    {
        auto r = refs();
        std::unique_ptr<T[]> v(new T[r.size() + 1]);
        for (std::size_t i = 0; i <= r.size(); ++i) v[i] = poison;
        plan(r.empty() ? 0 : 12);
        const auto n = s.i->calls.size();
        std::string kind;
        const auto msg = thrown([&] { get(r, gsl::span<T>(v.get(), r.size())); }, kind);
        if (judge(s, fn, n, s.i->calls.size() == n && r.empty() ? std::vector<std::string>{} : std::vector<std::string>{fn}, kind, msg))
            for (std::size_t i = 0; i < r.size(); ++i) PBT_REQUIRE("values", equal(v[i], static_cast<T>(m[r[i]])), fn, ": value ", i, " of ", r.size(), " is wrong");
        PBT_REQUIRE("values", equal(v[r.size()], poison), fn, ": wrote beyond the end");
    }

    void do_access(slave& s)
    {
        auto& p = *s.p;
        using R = gsl::span<const value_reference>;
        using V = std::vector<value_reference>;
        auto sp = [](const V& r) { return R(r.data(), r.size()); };
        switch (c.draw(9)) {
            case 0: set_one<double>(s, s.i->reals, "set_real", [&] { return c.real(); }, [&](const V& r, gsl::span<const double> v) { p.set_real_variables(sp(r), v); }); break;
            case 1: set_one<int>(s, s.i->ints, "set_integer", [&] { return static_cast<int>(c.integer(std::numeric_limits<int>::min(), std::numeric_limits<int>::max())); }, [&](const V& r, gsl::span<const int> v) { p.set_integer_variables(sp(r), v); }); break;
            case 2: set_one<bool>(s, s.i->bools, "set_boolean", [&] { return c.chance(50); }, [&](const V& r, gsl::span<const bool> v) { p.set_boolean_variables(sp(r), v); }); break;
            case 3: set_one<std::string>(s, s.i->strings, "set_string", [&] { return c.ascii(20, "ab %\n"); }, [&](const V& r, gsl::span<const std::string> v) { p.set_string_variables(sp(r), v); }); break;
            case 4: get_one<double>(s, s.i->reals, "get_real", -77.5, [&](const V& r, gsl::span<double> v) { p.get_real_variables(sp(r), v); }); break;
            case 5: get_one<int>(s, s.i->ints, "get_integer", -77, [&](const V& r, gsl::span<int> v) { p.get_integer_variables(sp(r), v); }); break;
            case 6: get_one<bool>(s, s.i->bools, "get_boolean", true, [&](const V& r, gsl::span<bool> v) { p.get_boolean_variables(sp(r), v); }); break;
            case 7: get_one<std::string>(s, s.i->strings, "get_string", "poison", [&](const V& r, gsl::span<std::string> v) { p.get_string_variables(sp(r), v); }); break;
            case 8: { // all at once
                const auto r = refs(), i = refs(), b = refs(), t = refs();
                cosim::slave::variable_values v;
                planned = reply::ok;
                std::string kind;
                const auto msg = thrown([&] { p.get_variables(&v, sp(r), sp(i), sp(b), sp(t)); }, kind);
                PBT_REQUIRE("status", kind.empty(), "get_variables() failed: ", msg);
                bool ok = v.real.size() == r.size() && v.integer.size() == i.size() && v.boolean.size() == b.size() && v.string.size() == t.size();
                for (std::size_t k = 0; ok && k < r.size(); ++k) ok = equal(v.real[static_cast<int>(k)], s.i->reals[r[k]]);
                for (std::size_t k = 0; ok && k < i.size(); ++k) ok = v.integer[static_cast<int>(k)] == s.i->ints[i[k]];
                for (std::size_t k = 0; ok && k < b.size(); ++k) ok = v.boolean[static_cast<int>(k)] == s.i->bools[b[k]];
                for (std::size_t k = 0; ok && k < t.size(); ++k) ok = v.string[static_cast<int>(k)] == s.i->strings[t[k]];
                PBT_REQUIRE("values", ok, "get_variables(): a value is wrong");
                break;
            }
            case 9: { // wrong sizes
                planned = reply::ok;
                const auto n = s.i->calls.size();
                double x[2] = {1, 2};
                const value_reference r[1] = {0};
                std::string kind;
                thrown([&] { p.set_real_variables(gsl::span<const value_reference>(r, 1), gsl::span<const double>(x, 2)); }, kind);
                PBT_REQUIRE("status", kind == "argument" && s.i->calls.size() == n, "values were set with numbers of references and values that differ");
                break;
            }
        }
    }

    void do_slave()
    {
        if (slaves.empty()) return do_instantiate();
        auto& s = slaves[c.draw(slaves.size() - 1)];
        if (s.broken || s.lost) return;
        std::string kind;
        const auto n = s.i->calls.size();
        switch (s.state) {
            case 0: {
                s.now = cosim::time_point(cosim::duration(c.integer(-4000000000000LL, 4000000000000000LL)));
                std::optional<cosim::time_point> stop;
                if (c.chance(50)) stop = s.now + cosim::duration(c.integer(1, 4000000000000LL));
                std::optional<double> tol;
                if (c.chance(40)) tol = c.one_of<double>({1e-3, 1e-12, 0.5});
                c.note("setup");
                plan(8);
                const auto msg = thrown([&] { s.p->setup(s.now, stop, tol); }, kind);
                if (!judge(s, "setup()", n, {"setup_experiment", "enter_initialization_mode"}, kind, msg)) {
                    s.broken = true;
                    return;
                }
                PBT_REQUIRE("setup", s.i->start == cosim::to_double_time_point(s.now), "start time ", s.i->start);
                PBT_REQUIRE("setup", s.i->stop == (stop ? cosim::to_double_time_point(*stop) : 0.0), "stop time ", s.i->stop);
                PBT_REQUIRE("setup", s.i->tolerance == tol.value_or(0.0), "tolerance ", s.i->tolerance);
                s.state = 1;
                break;
            }
            case 1:
                if (c.chance(60)) return do_access(s);
                else {
                    c.note("start_simulation");
                    plan(8);
                    const auto msg = thrown([&] { s.p->start_simulation(); }, kind);
                    if (!judge(s, "start_simulation()", n, {"exit_initialization_mode"}, kind, msg)) {
                        s.broken = true;
                        return;
                    }
                    s.state = 2;
                }
                break;
            case 2:
                if (c.chance(50)) return do_access(s);
                if (c.chance(90)) {
                    const auto dt = cosim::duration(c.chance(60) ? c.one_of<std::int64_t>({1, 1000000, 100000000, 123456789, 333333333}) : c.integer(1, 4000000000000LL));
                    c.note("step of " + std::to_string(dt.count()));
                    plan(8);
                    cosim::step_result r{};
                    const auto msg = thrown([&] { r = s.p->do_step(s.now, dt); }, kind);
                    const bool ok = judge(s, "do_step()", n, {"step"}, kind, msg);
                    PBT_REQUIRE("step", s.i->steps.back().first == cosim::to_double_time_point(s.now), "a step starting at ", s.i->steps.back().first);
                    PBT_REQUIRE("step", s.i->steps.back().second == cosim::to_double_duration(dt, s.now), "a step of ", s.i->steps.back().second, " instead of ", cosim::to_double_duration(dt, s.now), " at ", s.i->steps.back().first);
                    if (!ok) {
                        s.broken = true;
                        return;
                    }
                    PBT_REQUIRE("step", r == cosim::step_result::complete, "the step is not complete");
                    s.now += dt;
                    c.label("steps");
                } else {
                    c.note("end_simulation");
                    plan(15);
                    const auto msg = thrown([&] { s.p->end_simulation(); }, kind);
                    if (!judge(s, "end_simulation()", n, {"terminate"}, kind, msg)) s.broken = true;
                    s.state = 3;
                }
                break;
            default: break;
        }
    }

    void drop_slave()
    {
        if (slaves.empty()) return;
        const auto k = c.draw(slaves.size() - 1);
        c.note("drop slave " + std::to_string(k));
        auto s = slaves[k];
        slaves.erase(slaves.begin() + static_cast<std::ptrdiff_t>(k));
        const bool running = s.state == 2 && !s.broken && !s.lost;
        plan(25);
        // once lost, a connection stays lost
        if (s.lost) script = [](const std::string&) { return reply::lost; };
        const bool lost = s.lost || planned == reply::lost;
        s.p.reset();
        script = nullptr;
        if (lost) {
            c.label("dropped without connection");
            c.nontrivial();
        }
        PBT_REQUIRE("misuse", misuse.empty(), "dropping a slave: ", misuse);
        if (running) PBT_REQUIRE("terminate", s.i->terminations == 1, "a running slave was not terminated before it was freed");
        if (!s.i->failed || s.state == 3) PBT_REQUIRE("terminate", s.i->terminations == (s.state >= 2 ? 1 : 0), "a slave was terminated ", s.i->terminations, " times");
        PBT_REQUIRE("free", s.i->freeings == 1 || (lost && s.i->freeings == 0), "a slave was freed ", s.i->freeings, " times");
        PBT_REQUIRE("free", s.i->destroyed, "a slave was not destroyed");
    }
};

void run(pbt::test_case& c)
{
    descriptions.clear();
    connections.clear();
    instances.clear();
    script = nullptr;
    misuse.clear();
    const fs::path dir = fs::canonical(pbt::scratch()) / "c36";
    fs::remove_all(dir);
    {
        world w(c, dir);
        const int n = c.irange(1, 4);
        for (int i = 0; i < n; ++i) {
            auto d = dir;
            c.repeat(0, 3, 1, [&](int) { d /= c.one_of<const char*>({"a", "b", "models", "with space", "100%", "a#b", "what?", "\xc3\xa6", "a+b", "%41", "file=x", "x&y"}); });
            const auto f = d / (c.one_of<const char*>({"model", "my model", "m#", "m%20n", "file=", "\xc3\xb8"}) + std::to_string(i) + ".fmu");
            fs::create_directories(d);
            fstree::spit(f, "");
            descriptions[f.string()] = gen_description(c, i);
            w.files.push_back(f);
        }
        c.repeat(3, c.sized(15, 150), 40, [&](int) {
            switch (c.weighted({4, 3, 30, 3, 1})) {
                case 0: w.do_lookup(); break;
                case 1: w.do_instantiate(); break;
                case 2: w.do_slave(); break;
                case 3: w.drop_slave(); break;
                case 4:
                    if (!w.models.empty()) w.models.erase(w.models.begin() + static_cast<std::ptrdiff_t>(c.draw(w.models.size() - 1)));
                    break;
            }
        });
        while (!w.slaves.empty()) w.drop_slave();
    }
    fs::remove_all(dir);
}
} // namespace

int main(int argc, char** argv)
{
    boost::log::core::get()->set_logging_enabled(false);
    pbt::spec s;
    s.id = "C36";
    s.rule = "a reference is not below the base, absolute, refused or for another resolver, or a call fails or loses the connection";
    s.quick_cases = 6000;
    s.thorough_cases = 150000;
    s.run = run;
    return pbt::main(argc, argv, s);
}
