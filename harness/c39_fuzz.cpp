// C39: no input, however malformed, does worse than be refused.
//
// Coverage-guided: the library is compiled with libFuzzer's instrumentation, and
// libFuzzer evolves inputs from small valid ones.  This file has its own driver,
// with the same interface towards check.py as the engine of the other checks:
// it runs the fuzzer in a child, and confirms and shrinks what it finds.
#include "fmu_stub.hpp"

#include <cosim/algorithm.hpp>
#include <cosim/exception.hpp>
#include <cosim/execution.hpp>
#include <cosim/function/linear_transformation.hpp>
#include <cosim/function/vector_sum.hpp>
#include <cosim/manipulator/scenario_manager.hpp>
#include <cosim/model_description.hpp>
#include <cosim/observer/file_observer.hpp>
#include <cosim/orchestration.hpp>
#include <cosim/osp_config_parser.hpp>
#include <cosim/scenario_parser.hpp>
#include <cosim/slave.hpp>
#include <cosim/ssp/ssp_loader.hpp>
#include <cosim/system_structure.hpp>
#include <cosim/uri.hpp>
#include <cosim/utility/zip.hpp>

#include <boost/log/core.hpp>

#include <csignal>
#include <cstdio>
#include <cstring>
#include <filesystem>
#include <fstream>
#include <grp.h>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>

#include "zipfile.hpp"

extern "C" int LLVMFuzzerRunDriver(int* argc, char*** argv, int (*callback)(const std::uint8_t* data, std::size_t size));

namespace fs = std::filesystem;

namespace
{
std::string dir; // of this process: everything is done here

/// What is wrong, found by an oracle: the process ends.
[[noreturn]] void broken(const std::string& tag, const std::string& what)
{
    std::ofstream(dir + "/broken") << tag << "\n" << what << "\n";
    std::fprintf(stderr, "%s: %s\n", tag.c_str(), what.c_str());
    std::abort();
}

void spit(const fs::path& p, std::string_view text)
{
    std::ofstream f(p, std::ios::binary);
    f.write(text.data(), static_cast<std::streamsize>(text.size()));
}

/// The parts of an input, which are separated by lines with a single '%'.
std::vector<std::string_view> parts(std::string_view s)
{
    std::vector<std::string_view> r;
    for (;;) {
        const auto p = s.find("\n%\n");
        r.push_back(s.substr(0, p));
        if (p == s.npos) return r;
        s.remove_prefix(p + 3);
    }
}

/// Runs `f`; true if it succeeds, false if it throws what may be thrown.
template<typename F>
bool accepted(F&& f, std::string* message = nullptr)
{
    try {
        f();
        return true;
    } catch (const std::exception& e) {
        if (!*e.what()) broken("no-message", "an error has no message");
        if (message) *message = e.what();
        if (std::getenv("C39_SHOW")) std::fprintf(stderr, "refused: %s\n", e.what());
        return false;
    } catch (...) {
        broken("exception-type", "something was thrown that is not a std::exception");
    }
}

// ---- models -------------------------------------------------------------

class plain_slave : public cosim::slave
{
public:
    explicit plain_slave(cosim::model_description md)
        : md_(std::move(md))
    { }
    cosim::model_description model_description() const override { return md_; }
    void setup(cosim::time_point, std::optional<cosim::time_point>, std::optional<double>) override { }
    void start_simulation() override { }
    void end_simulation() override { }
    cosim::step_result do_step(cosim::time_point, cosim::duration) override { return cosim::step_result::complete; }
    template<typename R, typename V, typename M>
    static void get(R refs, V values, const M& m)
    {
        for (std::size_t i = 0; i < static_cast<std::size_t>(refs.size()); ++i) {
            const auto it = m.find(refs[i]);
            values[i] = it == m.end() ? typename M::mapped_type() : it->second;
        }
    }
    template<typename R, typename V, typename M>
    static void set(R refs, V values, M& m)
    {
        for (std::size_t i = 0; i < static_cast<std::size_t>(refs.size()); ++i) m[refs[i]] = values[i];
    }
    void get_real_variables(gsl::span<const cosim::value_reference> r, gsl::span<double> v) const override { get(r, v, reals_); }
    void get_integer_variables(gsl::span<const cosim::value_reference> r, gsl::span<int> v) const override { get(r, v, ints_); }
    void get_boolean_variables(gsl::span<const cosim::value_reference> r, gsl::span<bool> v) const override { get(r, v, bools_); }
    void get_string_variables(gsl::span<const cosim::value_reference> r, gsl::span<std::string> v) const override { get(r, v, strings_); }
    void set_real_variables(gsl::span<const cosim::value_reference> r, gsl::span<const double> v) override { set(r, v, reals_); }
    void set_integer_variables(gsl::span<const cosim::value_reference> r, gsl::span<const int> v) override { set(r, v, ints_); }
    void set_boolean_variables(gsl::span<const cosim::value_reference> r, gsl::span<const bool> v) override { set(r, v, bools_); }
    void set_string_variables(gsl::span<const cosim::value_reference> r, gsl::span<const std::string> v) override { set(r, v, strings_); }

private:
    cosim::model_description md_;
    std::map<cosim::value_reference, double> reals_;
    std::map<cosim::value_reference, int> ints_;
    std::map<cosim::value_reference, bool> bools_;
    std::map<cosim::value_reference, std::string> strings_;
};

cosim::model_description the_description(const std::string& name)
{
    using namespace cosim;
    model_description md;
    md.name = name;
    md.uuid = name;
    value_reference n = 0;
    auto add = [&](const char* v, variable_type t, variable_causality c, variable_variability va) { md.variables.push_back({v, n++, t, c, va, std::nullopt}); };
    using vt = variable_type;
    using vc = variable_causality;
    using vv = variable_variability;
    add("x", vt::real, vc::input, vv::continuous);
    add("y", vt::real, vc::output, vv::continuous);
    add("x[1]", vt::real, vc::input, vv::continuous);
    add("y[1]", vt::real, vc::output, vv::continuous);
    add("p", vt::real, vc::parameter, vv::fixed);
    add("q", vt::real, vc::calculated_parameter, vv::tunable);
    add("i", vt::integer, vc::input, vv::discrete);
    add("j", vt::integer, vc::output, vv::discrete);
    add("b", vt::boolean, vc::input, vv::discrete);
    add("c", vt::boolean, vc::output, vv::discrete);
    add("s", vt::string, vc::input, vv::discrete);
    add("t", vt::string, vc::output, vv::discrete);
    add("l", vt::real, vc::local, vv::continuous);
    add("x[2]", vt::real, vc::input, vv::continuous);
    add("x[3]", vt::real, vc::input, vv::continuous);
    add("x[4]", vt::real, vc::input, vv::continuous);
    add("k", vt::integer, vc::parameter, vv::constant);
    return md;
}

class plain_model : public cosim::model
{
public:
    explicit plain_model(const std::string& name)
        : md_(std::make_shared<cosim::model_description>(the_description(name)))
    { }
    std::shared_ptr<const cosim::model_description> description() const noexcept override { return md_; }
    std::shared_ptr<cosim::slave> instantiate(std::string_view) override { return std::make_shared<plain_slave>(*md_); }

private:
    std::shared_ptr<const cosim::model_description> md_;
};

class any_resolver : public cosim::model_uri_sub_resolver
{
public:
    std::shared_ptr<cosim::model> lookup_model(const cosim::uri& u) override
    {
        const std::string v(u.view());
        if (v.size() > 5 && v.compare(v.size() - 5, 5, "A.fmu") == 0) return a_;
        if (v.size() > 5 && v.compare(v.size() - 5, 5, "B.fmu") == 0) return b_;
        return nullptr;
    }

private:
    std::shared_ptr<cosim::model> a_ = std::make_shared<plain_model>("A"), b_ = std::make_shared<plain_model>("B");
};

std::shared_ptr<cosim::model_uri_resolver> the_resolver()
{
    static const auto r = [] {
        auto x = std::make_shared<cosim::model_uri_resolver>();
        x->add_sub_resolver(std::make_shared<any_resolver>());
        return x;
    }();
    return r;
}

const cosim::variable_description* find_variable(const cosim::model_description& md, const std::string& name)
{
    for (auto& v : md.variables)
        if (v.name == name) return &v;
    return nullptr;
}

/// An accepted system must be consistent, and must do for a simulation.
void use_system(const cosim::system_structure& ss, const cosim::variable_value_map& initial, cosim::time_point start, std::shared_ptr<cosim::algorithm> algorithm)
{
    std::size_t entities = 0;
    double size = 0;
    for (auto& e : ss.entities()) {
        ++entities;
        if (auto f = std::get_if<std::shared_ptr<cosim::function_type>>(&e.type)) {
            double n = 1;
            for (auto& [k, v] : e.parameter_values)
                if (auto i = std::get_if<int>(&v)) n *= std::max(1, *i);
            size += n;
        }
    }
    for (const auto& c : ss.connections()) {
        const auto s = ss.find_entity(c.source.entity_name), t = ss.find_entity(c.target.entity_name);
        if (!s || !t) broken("dangling", "a connection refers to an entity which does not exist");
        if (!c.source.is_simulator_variable() && !c.target.is_simulator_variable()) broken("dangling", "functions are connected with each other");
    }
    for (auto& [name, value] : initial) {
        if (!ss.find_entity(name.entity_name)) broken("dangling", "there is an initial value for an entity which does not exist");
        const auto& v = ss.get_variable_description(name);
        const bool same = (v.type == cosim::variable_type::real && std::holds_alternative<double>(value)) ||
            ((v.type == cosim::variable_type::integer || v.type == cosim::variable_type::enumeration) && std::holds_alternative<int>(value)) ||
            (v.type == cosim::variable_type::boolean && std::holds_alternative<bool>(value)) ||
            (v.type == cosim::variable_type::string && std::holds_alternative<std::string>(value));
        if (!same) broken("value-type", "the initial value of " + name.entity_name + "." + name.variable_name + " has another type than the variable");
    }
    if (size > 1e5 || entities > 1000) return; // would only be slow
    accepted([&] {
        cosim::execution exe(start, algorithm);
        const auto maps = cosim::inject_system_structure(exe, ss, initial);
        if (maps.simulators.size() + maps.functions.size() != entities) broken("inject", "an entity is missing in the execution");
        if (start.time_since_epoch() < cosim::duration(std::numeric_limits<std::int64_t>::max() / 4)) {
            exe.step();
            exe.step();
        }
    });
}

// ---- targets ------------------------------------------------------------

bool fuzz_uri(std::string_view in)
{
    const auto p = parts(in);
    const std::string a(p[0]), b(p.size() > 1 ? p[1] : std::string_view("file:///tmp/x"));
    std::optional<cosim::uri> u, base;
    accepted([&] { u = cosim::uri(a); });
    accepted([&] { base = cosim::uri(b); });
    if (u) {
        if (u->view() != a) broken("uri", "the URI is not what was parsed");
        // put together again, it is the same
        std::string s;
        if (u->scheme()) s += std::string(*u->scheme()) + ":";
        if (u->authority()) s += "//" + std::string(*u->authority());
        s += std::string(u->path());
        if (u->query()) s += "?" + std::string(*u->query());
        if (u->fragment()) s += "#" + std::string(*u->fragment());
        if (s != a) broken("uri", "the components are not those of the URI");
        cosim::uri moved(std::move(*u));
        *u = moved;
        if (u->view() != a) broken("uri", "a copy is different");
        std::string path;
        if (accepted([&] { path = cosim::file_uri_to_path(*u).string(); })) {
            accepted([&] {
                const auto back = cosim::file_uri_to_path(cosim::path_to_file_uri(path)).string();
                if (back != path) broken("path", "the path of a file URI is not what its URI leads to");
            });
        }
    }
    if (u && base) {
        std::optional<cosim::uri> r;
        if (accepted([&] { r = cosim::resolve_reference(*base, *u); })) {
            if (!r->scheme()) broken("resolve", "the resolved reference is not absolute");
            if (!u->fragment() != !r->fragment()) broken("resolve", "the fragment is not the reference's");
            accepted([&] {
                cosim::uri again(std::string(r->view()));
                if (again != *r) broken("resolve", "the resolved reference is another URI when parsed");
            });
        }
    }
    std::string enc = cosim::percent_encode(a);
    if (!accepted([&] {
            if (cosim::percent_decode(enc) != a) broken("percent", "decoding does not give what was encoded");
        }))
        broken("percent", "an encoded string cannot be decoded");
    accepted([&] { cosim::percent_decode(a); });
    return u && base && a.size() > 3;
}

/// Whether functions with an enormous number of inputs are asked for, which take
/// as much memory and time as one would expect.
bool enormous(std::string_view in)
{
    for (std::string_view what : {"inputCount", "dimension"})
        for (auto at = in.find(what); at != in.npos; at = in.find(what, at + 1)) {
            auto i = at + what.size();
            while (i < in.size() && std::strchr(" \t\r\n=\"'+0", in[i])) ++i;
            int digits = 0;
            while (i < in.size() && std::isdigit(static_cast<unsigned char>(in[i]))) ++i, ++digits;
            if (digits > 4) return true;
        }
    return false;
}

bool fuzz_osp(std::string_view in)
{
    if (enormous(in)) return false;
    const auto p = parts(in);
    spit(dir + "/OspSystemStructure.xml", p[0]);
    for (std::size_t k = 1; k <= 2; ++k) {
        const auto f = dir + (k == 1 ? "/A_OspModelDescription.xml" : "/B_OspModelDescription.xml");
        if (p.size() > k) spit(f, p[k]);
        else fs::remove(f);
    }
    std::optional<cosim::osp_config> got;
    std::string error, error2;
    if (!accepted([&] { got = cosim::load_osp_config(dir + "/OspSystemStructure.xml", *the_resolver()); }, &error)) return false;
    if (got->step_size <= cosim::duration::zero()) broken("step-size", "the step size is not positive");
    if (got->end_time && *got->end_time < got->start_time) broken("end-time", "the end time is before the start time");
    use_system(got->system_structure, got->initial_values, got->start_time, std::make_shared<cosim::fixed_step_algorithm>(got->step_size, 0u));
    return true;
}

bool fuzz_ssp(std::string_view in)
{
    const auto p = parts(in);
    spit(dir + "/SystemStructure.ssd", p[0]);
    if (p.size() > 1) spit(dir + "/v.ssv", p[1]);
    else fs::remove(dir + "/v.ssv");
    cosim::ssp_loader loader;
    loader.set_model_uri_resolver(the_resolver());
    std::optional<cosim::ssp_configuration> got;
    if (!accepted([&] { got = loader.load(dir); })) return false;
    if (!got->parameter_sets.count("")) broken("parameter-sets", "there is no default parameter set");
    // Without an algorithm, the caller is to choose one.
    for (auto& [name, set] : got->parameter_sets)
        use_system(got->system_structure, set, got->start_time, name.empty() && got->algorithm ? got->algorithm : std::make_shared<cosim::fixed_step_algorithm>(cosim::to_duration(0.1), 0u));
    return true;
}

struct world
{
    std::shared_ptr<cosim::fixed_step_algorithm> algorithm = std::make_shared<cosim::fixed_step_algorithm>(cosim::to_duration(0.1), 0u);
    cosim::execution exe{cosim::time_point(), algorithm};
    struct keep : cosim::manipulator
    {
        std::unordered_map<cosim::simulator_index, cosim::manipulable*> sims;
        void simulator_added(cosim::simulator_index i, cosim::manipulable* m, cosim::time_point) override { sims[i] = m; }
        void simulator_removed(cosim::simulator_index, cosim::time_point) override { }
        void step_commencing(cosim::time_point) override { }
    };
    std::shared_ptr<keep> k = std::make_shared<keep>();
    world()
    {
        exe.add_manipulator(k);
        exe.add_slave(std::make_shared<plain_slave>(the_description("A")), "a");
        exe.add_slave(std::make_shared<plain_slave>(the_description("B")), "b");
    }
};

bool fuzz_scenario(std::string_view in)
{
    static auto& w = *new world;
    if (in.empty()) return false;
    const bool json = in[0] == '{';
    const fs::path f = dir + (json ? "/scenario.json" : "/scenario.yml");
    spit(f, in);
    cosim::scenario::scenario s;
    if (!accepted([&] { s = cosim::parse_scenario(f, w.k->sims); })) return false;
    for (auto& e : s.events) {
        bool known = false;
        const auto md = the_description("A");
        for (auto& v : md.variables)
            known = known || (v.reference == e.action.variable && static_cast<std::size_t>(v.type) == e.action.modifier.index());
        if (!known || !w.k->sims.count(e.action.simulator)) broken("event-unknown", "there is an event for a variable which does not exist");
    }
    // It must do for a run.
    accepted([&] {
        world v;
        auto m = std::make_shared<cosim::scenario_manager>();
        v.exe.add_manipulator(m);
        m->load_scenario(s, v.exe.current_time());
        for (int i = 0; i < 12; ++i) v.exe.step();
        if (s.end && *s.end > cosim::time_point(cosim::to_duration(1.5)) && !m->is_scenario_running()) broken("scenario-ended", "the scenario ended before its end time");
        m->abort_scenario();
        v.exe.step();
        if (m->is_scenario_running()) broken("scenario-aborted", "the scenario is running after it was aborted");
    });
    return !s.events.empty();
}

bool fuzz_log_config(std::string_view in)
{
    const fs::path f = dir + "/LogConfig.xml";
    spit(f, in);
    std::optional<cosim::file_observer_config> c;
    if (!accepted([&] { c = cosim::file_observer_config::parse(f); })) return false;
    bool used = false;
    const auto logs = dir + "/logs";
    accepted([&] {
        world w;
        auto o = std::make_shared<cosim::file_observer>(logs, *c);
        w.exe.add_observer(o);
        w.exe.step();
        w.exe.step();
        used = true;
    });
    std::error_code ec;
    fs::remove_all(logs, ec);
    return used;
}

bool fuzz_zip(std::string_view in)
{
    const fs::path f = dir + "/z.zip", target = dir + "/out/target";
    spit(f, in);
    std::error_code ec;
    fs::remove_all(dir + "/out", ec);
    fs::create_directories(target);
    spit(dir + "/out/canary", "canary");
    bool any = false;
    accepted([&] {
        namespace zip = cosim::utility::zip;
        zip::archive a(f);
        const auto n = std::min<std::uint64_t>(a.entry_count(), 50);
        for (std::uint64_t i = 0; i < n; ++i) {
            accepted([&] {
                const auto name = a.entry_name(i);
                const auto j = a.find_entry(name);
                if (j != zip::invalid_entry_index && a.entry_name(j) != name) broken("entry", "another entry was found");
            });
            accepted([&] { a.is_dir_entry(i); });
            accepted([&] {
                const auto p = a.extract_file_to(i, target);
                if (p.parent_path() != target || !fs::exists(p)) broken("extract", "a file was extracted to another place");
                any = true;
            });
        }
        if (n < 50) accepted([&] {
            a.extract_all(target);
            any = n > 0;
        });
    });
    // nothing but what was there is outside of the target
    int others = 0;
    for (auto& e : fs::directory_iterator(dir + "/out")) {
        const auto name = e.path().filename();
        if (name != "canary" && name != "target") ++others;
    }
    std::string canary;
    std::getline(std::ifstream(dir + "/out/canary"), canary);
    if (others || canary != "canary") broken("outside", "extraction left its target directory");
    return any;
}

// ---- seeds and dictionaries -----------------------------------------------

const char* const ospSeed = R"(<?xml version="1.0" encoding="utf-8"?>
<OspSystemStructure xmlns="http://opensimulationplatform.com/MSMI/OSPSystemStructure" version="0.1">
<StartTime>0.5</StartTime><EndTime>7</EndTime><BaseStepSize>0.1</BaseStepSize><Algorithm>fixedStep</Algorithm>
<Simulators><Simulator name="a" source="A.fmu" stepSize="0.2"><InitialValues>
<InitialValue variable="p"><Real value="2.5"/></InitialValue><InitialValue variable="i"><Integer value="-3"/></InitialValue>
<InitialValue variable="b"><Boolean value="true"/></InitialValue><InitialValue variable="s"><String value="abc"/></InitialValue>
</InitialValues></Simulator><Simulator name="b" source="B.fmu"/></Simulators>
<Functions><LinearTransformation name="lt" factor="1.5" offset="-1"/><Sum name="sum" inputCount="1"/><VectorSum name="vs" inputCount="1" dimension="2"/></Functions>
<Connections>
<VariableConnection><Variable simulator="a" name="y"/><Variable simulator="b" name="x"/></VariableConnection>
<VariableConnection><Variable simulator="b" name="i"/><Variable simulator="a" name="j"/></VariableConnection>
<SignalConnection><Variable simulator="b" name="y"/><Signal function="lt" name="in"/></SignalConnection>
<SignalConnection><Signal function="lt" name="out"/><Variable simulator="a" name="x"/></SignalConnection>
<SignalConnection><Variable simulator="a" name="y"/><Signal function="sum" name="in[0]"/></SignalConnection>
<VariableGroupConnection><VariableGroup simulator="a" name="port"/><VariableGroup simulator="b" name="port"/></VariableGroupConnection>
<SignalGroupConnection><SignalGroup function="vs" name="in[0]"/><VariableGroup simulator="a" name="outs"/></SignalGroupConnection>
<SignalGroupConnection><SignalGroup function="vs" name="out"/><VariableGroup simulator="b" name="ins"/></SignalGroupConnection>
<SignalConnection><Variable simulator="b" name="x[2]"/><Signal function="sum" name="out"/></SignalConnection>
</Connections></OspSystemStructure>)";
const char* const ospmdSeed = R"(<?xml version="1.0" encoding="utf-8"?>
<OspModelDescription xmlns="http://opensimulationplatform.com/MSMI/OSPModelDescription" version="0.1">
<UnitDefinitions><Unit name="N"><BaseUnit kg="1" m="1" s="-2"/></Unit></UnitDefinitions>
<VariableGroups><Generic name="outs"><Variable ref="y"/><Variable ref="y[1]"/></Generic><Generic name="ins"><Variable ref="x[3]"/><Variable ref="x[4]"/></Generic>
<LinearMechanicalPort name="port"><Force name="f"><Variable ref="x[1]" unit="N"/></Force><LinearVelocity name="v"><Variable ref="y[1]"/></LinearVelocity></LinearMechanicalPort>
<Generic name="outer"><Generic name="inner"><Variable ref="x"/></Generic></Generic>
</VariableGroups></OspModelDescription>)";
// the other side of the port
std::string ospmdSeed2()
{
    std::string s = ospmdSeed;
    const auto port = s.find("<Linear");
    s.replace(s.find("x[1]", port), 4, "y[1]");
    s.replace(s.rfind("y[1]"), 4, "x[1]");
    return s;
}
const char* const ssdSeed = R"(<?xml version="1.0" encoding="UTF-8"?>
<ssd:SystemStructureDescription name="n" version="1.0" xmlns:ssd="http://ssp-standard.org/SSP1/SystemStructureDescription" xmlns:ssc="http://ssp-standard.org/SSP1/SystemStructureCommon" xmlns:ssv="http://ssp-standard.org/SSP1/SystemStructureParameterValues" xmlns:osp="http://opensimulationplatform.com/SSP/OSPAnnotations">
<ssd:System name="sys" description="d"><ssd:Elements>
<ssd:Component name="a" source="A.fmu"><ssd:Connectors><ssd:Connector name="y" kind="output"><ssc:Real/></ssd:Connector><ssd:Connector name="j" kind="output"><ssc:Integer/></ssd:Connector></ssd:Connectors>
<ssd:ParameterBindings><ssd:ParameterBinding source="v.ssv"/><ssd:ParameterBinding><ssd:ParameterValues><ssv:ParameterSet version="1.0" name="init"><ssv:Parameters>
<ssv:Parameter name="p"><ssv:Real value="0.5"/></ssv:Parameter><ssv:Parameter name="b"><ssv:Boolean value="true"/></ssv:Parameter><ssv:Parameter name="s"><ssv:String value="q"/></ssv:Parameter><ssv:Parameter name="i"><ssv:Integer value="6"/></ssv:Parameter>
</ssv:Parameters></ssv:ParameterSet></ssd:ParameterValues></ssd:ParameterBinding></ssd:ParameterBindings>
<ssd:Annotations><ssc:Annotation type="com.opensimulationplatform"><osp:SimulationInformation><osp:ComponentInformation stepSizeHint="0.2"/></osp:SimulationInformation></ssc:Annotation></ssd:Annotations></ssd:Component>
<ssd:Component name="b" source="B.fmu"><ssd:Connectors><ssd:Connector name="x" kind="input"><ssc:Real/></ssd:Connector><ssd:Connector name="i" kind="input"><ssc:Integer/></ssd:Connector></ssd:Connectors></ssd:Component>
</ssd:Elements><ssd:Connections>
<ssd:Connection startElement="a" startConnector="y" endElement="b" endConnector="x"><ssc:LinearTransformation factor="2" offset="1"/></ssd:Connection>
<ssd:Connection startElement="a" startConnector="j" endElement="b" endConnector="i"/>
</ssd:Connections></ssd:System>
<ssd:DefaultExperiment startTime="1" stopTime="5"><ssd:Annotations><ssc:Annotation type="com.opensimulationplatform"><osp:Algorithm><osp:FixedStepAlgorithm baseStepSize="0.1"/></osp:Algorithm></ssc:Annotation></ssd:Annotations></ssd:DefaultExperiment>
</ssd:SystemStructureDescription>)";
const char* const ssvSeed = R"(<?xml version="1.0"?><ssv:ParameterSet version="1.0" name="other" xmlns:ssv="http://ssp-standard.org/SSP1/SystemStructureParameterValues"><ssv:Parameters>
<ssv:Parameter name="x"><ssv:Real value="2"/></ssv:Parameter></ssv:Parameters></ssv:ParameterSet>)";
const char* const logSeed = R"(<?xml version="1.0" encoding="UTF-8"?>
<simulators xmlns="http://opensimulationplatform.com/LogConfig"><simulator name="a" decimationFactor="2"><variable name="y"/><variable name="j"/><variable name="c"/><variable name="t"/></simulator>
<simulator name="b"/></simulators>)";

struct target
{
    const char* name;
    bool (*run)(std::string_view);
    long quickRuns;
    int maxLen;
    std::vector<std::string> (*seeds)();
    const char* dictionary;
};

const char* const xmlDict = "\"<\" \">\" \"/>\" \"</\" \"=\\\"\" \"<!--\" \"-->\" \"<![CDATA[\" \"]]>\" \"<?\" \"?>\" \"&lt;\" \"&#0;\" \"&#x41;\" \"xmlns=\" \"<!DOCTYPE x [\" \"]>\" \"name=\\\"\" \"value=\\\"\" \"source=\\\"\" "
                            "\"NaN\" \"INF\" \"-INF\" \"1e999\" \"-1\" \"0\" \"2147483648\" \"-2147483649\" \"99999999999999999999\" \"1e-320\" \"true\" \"false\" \"\\x0a%\\x0a\" \"[0]\" \"[1]\" \"[-1]\" \"[4294967296]\" \"[]\" ";

const target targets[] = {
    {"URI", fuzz_uri, 350000, 300, +[] { return std::vector<std::string>{"http://u@h:80/p/./q/../r?x=1#f\n%\nfile:///a/b/c?d#e", "../g;x=1/./y\n%\nhttp://a/b/c/d;p?q", "file:///a%20b/c%C3%A6", "proxyfmu://localhost:9090?file=../x.fmu", "//[2001:db8::7]:80/x\n%\ns:a", "mailto:a@b", "#x\n%\nq:"}; }, "\"://\" \"//\" \"/..\" \"/.\" \"..\" \"%20\" \"%\" \"%4\" \"#\" \"?\" \"@\" \":\" \"[::1]\" \"file:\" \"\\x0a%\\x0a\" \"localhost\""},
    {"OSP", fuzz_osp, 4000, 7000, +[] { return std::vector<std::string>{std::string(ospSeed) + "\n%\n" + ospmdSeed + "\n%\n" + ospmdSeed2(), [] {
             std::string s = ospSeed;
             const auto b = s.find("<Sum "), e = s.find("</Functions>");
             s.erase(b, e - b);
             const auto b2 = s.find("<SignalConnection><Variable simulator=\"a\" name=\"y\"/>"), e2 = s.find("</Connections>");
             s.erase(b2, e2 - b2);
             return s; }()}; }, "\"in[0]\" \"inputCount=\\\"\" \"dimension=\\\"\" \"out[0]\" \"lt\" \"sum\" \"vs\" \"port\" \"<Sum name=\\\"z\\\" inputCount=\\\"1\\\"/>\""},
    {"OSP variable groups", fuzz_osp, 4000, 5000, +[] { return std::vector<std::string>{std::string("<OspSystemStructure xmlns=\"http://opensimulationplatform.com/MSMI/OSPSystemStructure\" version=\"0.1\"><BaseStepSize>1</BaseStepSize><Simulators><Simulator name=\"a\" source=\"A.fmu\"/><Simulator name=\"b\" source=\"B.fmu\"/></Simulators><Connections><VariableGroupConnection><VariableGroup simulator=\"a\" name=\"port\"/><VariableGroup simulator=\"b\" name=\"port\"/></VariableGroupConnection></Connections></OspSystemStructure>") + "\n%\n" + ospmdSeed + "\n%\n" + ospmdSeed2()}; }, "\"ref=\\\"\" \"<Generic name=\\\"port\\\">\" \"</Generic>\""},
    {"SSP", fuzz_ssp, 10000, 6000, +[] { return std::vector<std::string>{std::string(ssdSeed) + "\n%\n" + ssvSeed}; }, "\"ssd:\" \"ssv:\" \"ssc:\" \"osp:\" \"v.ssv\" \"input\" \"output\" \"parameter\""},
    {"scenario", fuzz_scenario, 40000, 1500, +[] { return std::vector<std::string>{"---\ndefaults:\n  model: a\n  variable: y\n  action: override\nevents:\n  - time: 0.5\n    variable: x\n    action: bias\n    value: 1.001\n  - time: 0.2\n    value: -1\n  - time: 0.3\n    action: reset\n  - time: 0.8\n    variable: j\n    value: 5\nend: 1\n", "{\"defaults\": {\"model\": \"a\"}, \"events\": [{\"time\": 1, \"variable\": \"b\", \"action\": \"override\", \"value\": true}, {\"time\": 2, \"model\": \"b\", \"variable\": \"s\", \"action\": \"override\", \"value\": \"t\"}], \"end\": 3}"}; }, "\"- \" \"time: \" \"model: \" \"variable: \" \"action: \" \"value: \" \"events:\\x0a\" \"override\" \"bias\" \"reset\" \".nan\" \".inf\" \"1e999\" \"&a \" \"*a\" \"!!str \" \"<<: \" \"? \" \"| \" \"2147483648\" \"~\" \"true\" \"0x10\""},
    {"logging configuration", fuzz_log_config, 50000, 1500, +[] { return std::vector<std::string>{logSeed}; }, "\"decimationFactor=\\\"\" \"<variable name=\\\"x\\\"/>\" \"<simulator name=\\\"a\\\"/>\""},
    {"ZIP", fuzz_zip, 60000, 3000, +[] {
         std::vector<std::string> r;
         r.push_back(zipfile::make_zip({{"a.txt", "hello hello hello hello hello hello", true}, {"d/", "", false}, {"d/b", "b", false}, {"d/../../x", "escape", false}}, "", ""));
         r.push_back(zipfile::make_zip({{"x", "", false}}, "", ""));
         return r; }, "\"PK\\x01\\x02\" \"PK\\x03\\x04\" \"PK\\x05\\x06\" \"PK\\x06\\x06\" \"../\" \"/\""},
    {"SSP parameter values", fuzz_ssp, 10000, 5000, +[] {
         std::string s = ssdSeed;
         const auto b = s.find("<ssd:ParameterBinding><ssd:ParameterValues>"), e = s.find("</ssd:ParameterBindings>");
         s.erase(b, e - b);
         return std::vector<std::string>{s + "\n%\n" + ssvSeed, s + "\n%\n" + std::string(ssvSeed).insert(std::string(ssvSeed).find("</ssv:Parameters>"), "<ssv:Parameter name=\"b\"><ssv:Boolean value=\"true\"/></ssv:Parameter><ssv:Parameter name=\"s\"><ssv:String value=\"q\"/></ssv:Parameter><ssv:Parameter name=\"i\"><ssv:Integer value=\"6\"/></ssv:Parameter>")}; }, "\"<ssv:Real value=\\\"1\\\"/>\" \"<ssv:Boolean value=\\\"1\\\"/>\" \"<ssv:Integer value=\\\"1\\\"/>\" \"<ssv:Enumeration value=\\\"1\\\"/>\""},
};
constexpr int targetCount = sizeof targets / sizeof targets[0];

// ---- mutations which keep XML well-formed, and YAML nearly so -----------------

struct rng
{
    std::uint64_t s;
    std::uint64_t operator()(std::uint64_t n)
    {
        s = s * 6364136223846793005ull + 1442695040888963407ull;
        return n ? (s >> 33) % n : 0;
    }
};

struct element
{
    std::size_t begin, openEnd, closeBegin, end; // [begin, openEnd) is the start tag
};

std::vector<element> elements(const std::string& x)
{
    std::vector<element> r;
    std::vector<std::size_t> open;
    for (std::size_t i = 0; (i = x.find('<', i)) != x.npos;) {
        const auto e = x.find('>', i);
        if (e == x.npos) break;
        if (x[i + 1] == '/') {
            if (!open.empty()) {
                r[open.back()].closeBegin = i;
                r[open.back()].end = e + 1;
                open.pop_back();
            }
        } else if (x[i + 1] != '?' && x[i + 1] != '!') {
            r.push_back({i, e + 1, e + 1, e + 1});
            if (x[e - 1] != '/') open.push_back(r.size() - 1);
        }
        i = e + 1;
    }
    return r;
}

/// The values of attributes: positions behind the opening quotes, and lengths.
std::vector<std::pair<std::size_t, std::size_t>> values(const std::string& x)
{
    std::vector<std::pair<std::size_t, std::size_t>> r;
    for (std::size_t i = 0; (i = x.find("=\"", i)) != x.npos;) {
        const auto e = x.find('"', i + 2);
        if (e == x.npos) break;
        r.emplace_back(i + 2, e - i - 2);
        i = e + 1;
    }
    return r;
}

void mutate_xml(std::string& x, rng& r)
{
    const auto es = elements(x);
    const auto vs = values(x);
    if (es.size() < 2 || vs.empty()) return;
    const char* const words[] = {"", "0", "1", "-1", "2", "3", "0.1", "1e300", "-1e300", "1e-300", "NaN", "INF", "-INF", "2147483647", "2147483648", "-2147483649", "99999999999999999999", "true", "false", "x", "y", "x[1]", "a", "b", "in[0]", "in[1]", "in[0][0]", "out", "out[0]", "in[-1]", "in[4294967296]", "in[", "input", "output", "lt", "sum", "vs", "port", "outs", "fixedStep", " ", "A.fmu", "B.fmu", "http://x/y", "%zz", "../A.fmu", "&lt;", "\xc3\xa6"};
    const auto word = [&] { return std::string(words[r(sizeof words / sizeof words[0])]); };
    const auto& e = es[r(es.size())];
    const auto& f = es[r(es.size())];
    const auto v = vs[r(vs.size())];
    switch (r(9)) {
        case 0:
        case 1: x.replace(v.first, v.second, word()); break;
        case 2: {
            const auto w = vs[r(vs.size())];
            x.replace(v.first, v.second, std::string(x, w.first, w.second));
            break;
        }
        case 3: x.erase(e.begin, e.end - e.begin); break;
        case 4: x.insert(e.begin, std::string(x, e.begin, e.end - e.begin)); break;
        case 5: x.insert(f.begin, std::string(x, e.begin, e.end - e.begin)); break; // beside another
        case 6:
            if (f.closeBegin > f.openEnd) x.insert(f.closeBegin, std::string(x, e.begin, e.end - e.begin)); // into another
            break;
        case 7: { // without an attribute
            const auto b = x.rfind(' ', v.first);
            if (b != x.npos && x.find('<', b) > v.first) x.erase(b, v.first + v.second + 1 - b);
            break;
        }
        case 8:
            if (e.closeBegin > e.openEnd && x.find('<', e.openEnd) >= e.closeBegin) x.replace(e.openEnd, e.closeBegin - e.openEnd, word());
            else x.insert(e.openEnd, word());
            break;
    }
}

void mutate_lines(std::string& x, rng& r)
{
    std::vector<std::string> ls;
    std::istringstream in(x);
    for (std::string l; std::getline(in, l);) ls.push_back(l);
    if (ls.empty()) return;
    const auto i = r(ls.size()), j = r(ls.size());
    const char* const words[] = {"", "0", "1", "-1", "0.5", "1e999", ".nan", ".inf", "true", "2147483648", "~", "a", "b", "x", "y", "i", "j", "s", "override", "bias", "reset", "[]", "{}", "- 1", "\"1\"", "|", "&q", "*q", "!!int 1"};
    switch (r(6)) {
        case 0: ls.erase(ls.begin() + static_cast<std::ptrdiff_t>(i)); break;
        case 1: ls.insert(ls.begin() + static_cast<std::ptrdiff_t>(j), std::string(ls[i])); break;
        case 2: std::swap(ls[i], ls[j]); break;
        case 3:
        case 4: {
            const auto c = ls[i].find(": ");
            if (c != std::string::npos) ls[i].replace(c + 2, std::string::npos, words[r(sizeof words / sizeof words[0])]);
            break;
        }
        case 5: ls[i].insert(0, r(2) ? "  " : "- "); break;
    }
    x.clear();
    for (auto& l : ls) x += l + "\n";
}

enum class form { bytes, xml, lines } inputForm = form::bytes;
} // namespace

extern "C" std::size_t LLVMFuzzerMutate(std::uint8_t* data, std::size_t size, std::size_t max);
extern "C" std::size_t LLVMFuzzerCustomMutator(std::uint8_t* data, std::size_t size, std::size_t max, unsigned seed)
{
    rng r{seed * 2654435761ull + 88172645463325252ull};
    r(1);
    if (inputForm == form::bytes || size == 0 || r(100) < 15) return LLVMFuzzerMutate(data, size, max);
    std::string x(reinterpret_cast<char*>(data), size);
    for (auto n = r(4) ? 1 : 1 + r(4); n > 0; --n) inputForm == form::xml ? mutate_xml(x, r) : mutate_lines(x, r);
    if (x.empty() || x.size() > max) return LLVMFuzzerMutate(data, size, max);
    std::memcpy(data, x.data(), x.size());
    return x.size();
}

namespace
{
// ---- driver -----------------------------------------------------------------

struct options
{
    std::string out, replay;
    std::uint64_t seed = 1;
    int worker = 0, workers = 1;
    bool thorough = false, verbose = false;
    double maxSeconds = 300, shrinkSeconds = 40;
    long cases = -1;
} o;

double now()
{
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return static_cast<double>(t.tv_sec) + 1e-9 * static_cast<double>(t.tv_nsec);
}

std::string slurp(const std::string& p)
{
    std::ifstream f(p, std::ios::binary);
    return {std::istreambuf_iterator<char>(f), {}};
}

std::string escaped(const std::string& s)
{
    std::string r;
    char b[8];
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') r += std::string("\\") + static_cast<char>(c);
        else if (c == '\n') r += "\\n";
        else if (c < 0x20 || c > 0x7e) {
            std::snprintf(b, sizeof b, "\\u%04x", c);
            r += b;
        } else
            r += static_cast<char>(c);
    }
    return r;
}

std::uint64_t hash(std::string_view s)
{
    std::uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
    return h;
}

// Code under test never runs as root.
void child_setup(const std::string& log)
{
    setpgid(0, 0);
    if (!o.verbose) {
        std::freopen(log.c_str(), "w", stdout);
        dup2(1, 2);
    }
    if (geteuid() == 0) {
        const uid_t id = 63100 + static_cast<uid_t>(o.worker);
        if (setgroups(0, nullptr) || setgid(id) || setuid(id)) _exit(3);
    }
    rlimit core{0, 0};
    setrlimit(RLIMIT_CORE, &core);
    boost::log::core::get()->set_logging_enabled(false);
    if (chdir(dir.c_str())) _exit(3);
}

const target* current = nullptr;
struct
{
    long executed = 0, accepted = 0;
    std::unordered_set<std::uint64_t> distinct;
    std::vector<std::string> samples;
    std::string prefix;
    double deadline = 0;
    bool capped = false;
} stats;

void write_stats()
{
    std::ofstream st(stats.prefix + ".json");
    st << "{\"evaluations\": " << stats.executed << ", \"discarded\": 0, \"nontrivial\": " << stats.accepted << ", \"capped\": " << (stats.capped ? "true" : "false")
       << ", \"labels\": {\"" << current->name << "\": " << stats.executed << ", \"" << current->name << ", accepted\": " << stats.accepted << "}, \"known\": {}, \"samples\": [";
    for (std::size_t i = 0; i < stats.samples.size(); ++i) st << (i ? ", " : "") << '"' << escaped(std::string(current->name) + ": " + stats.samples[i].substr(0, 700)) << '"';
    st << "]}\n";
    std::ofstream d(stats.prefix + ".bin", std::ios::binary);
    for (auto h : stats.distinct) d.write(reinterpret_cast<const char*>(&h), sizeof h);
}

extern "C" int one_input(const std::uint8_t* data, std::size_t size)
{
    const std::string_view in(reinterpret_cast<const char*>(data), size);
    ++stats.executed;
    if (current->run(in)) {
        ++stats.accepted;
        if (stats.distinct.insert(hash(in)).second && (stats.samples.size() < 2 || (stats.samples.size() < 4 && stats.executed % 1009 == 0))) stats.samples.emplace_back(in);
    }
    return 0;
}

enum class verdict { fine, failed, hang, memory };

std::string lastReport;

/// Runs one input in a process of its own.
verdict judge(const std::string& in, double seconds)
{
    const auto log = o.out + "/judge.log";
    unlink((dir + "/broken").c_str());
    std::fflush(nullptr);
    const pid_t pid = fork();
    if (pid == 0) {
        child_setup(log);
        current->run(in);
        _exit(0);
    }
    // What counts is the time it has computed, not how busy the machine is.
    // Without computing much, it is stuck.
    const auto end = now() + seconds;
    clockid_t clock;
    const bool clocked = clock_getcpuclockid(pid, &clock) == 0;
    double computed = 0;
    long resident = 0;
    int status = 0;
    for (int k = 0;; ++k) {
        if (waitpid(pid, &status, WNOHANG) == pid) break;
        if (k % 20 == 0) {
            timespec ts{};
            if (clocked && clock_gettime(clock, &ts) == 0) computed = static_cast<double>(ts.tv_sec) + 1e-9 * static_cast<double>(ts.tv_nsec);
            long size = 0, pages = 0;
            std::ifstream("/proc/" + std::to_string(pid) + "/statm") >> size >> pages;
            resident = std::max(resident, pages * (sysconf(_SC_PAGESIZE) / 1024) / 1024);
        }
        const bool late = computed > seconds || (now() > end && computed < seconds / 20) || now() > end + 10 * seconds;
        if (late || resident > 2500) {
            kill(pid, SIGKILL);
            waitpid(pid, &status, 0);
            // Inputs that ask for a lot get it.
            return resident > 800 ? verdict::memory : verdict::hang;
        }
        usleep(1000);
    }
    if (WIFSIGNALED(status) && WTERMSIG(status) == SIGKILL) return verdict::memory; // from outside
    if (WIFEXITED(status) && WEXITSTATUS(status) == 0) return verdict::fine;
    lastReport = slurp(dir + "/broken");
    const auto l = slurp(log);
    if (l.find("out-of-memory") != l.npos || l.find("allocation-size-too-big") != l.npos || l.find("exceeds maximum supported size") != l.npos) return verdict::memory;
    if (lastReport.empty()) lastReport = "crash\n" + l.substr(0, 3000);
    return verdict::failed;
}

std::string shrink(std::string s, verdict v, double seconds)
{
    const auto end = now() + seconds;
    const double limit = v == verdict::hang ? 10 : 25;
    for (std::size_t n = s.size() / 2; n > 0 && now() < end;) {
        bool any = false;
        for (std::size_t i = 0; i < s.size() && now() < end;) {
            auto t = s;
            t.erase(i, n);
            if (judge(t, limit) == v) {
                s = t;
                any = true;
            } else
                i += n;
        }
        if (!any || n > s.size()) n /= 2;
    }
    return s;
}
} // namespace

int main(int argc, char** argv)
{
    for (int i = 1; i < argc; ++i) {
        const std::string a = argv[i];
        auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--out") o.out = val();
        else if (a == "--seed") o.seed = std::stoull(val());
        else if (a == "--thorough") o.thorough = true;
        else if (a == "--worker") o.worker = std::stoi(val());
        else if (a == "--workers") o.workers = std::stoi(val());
        else if (a == "--cases") o.cases = std::stol(val());
        else if (a == "--max-seconds") o.maxSeconds = std::stod(val());
        else if (a == "--shrink-seconds") o.shrinkSeconds = std::stod(val());
        else if (a == "--replay") o.replay = val();
        else if (a == "--known") val();
        else if (a == "--verbose") o.verbose = true;
        else if (a == "--seeds") { // shows what becomes of them
            dir = fs::absolute(val()).string();
            setenv("C39_SHOW", "1", 1);
            for (auto& x : targets)
                for (auto& s : x.seeds()) std::fprintf(stderr, "%s: %d\n", x.name, x.run(s));
            return 0;
        }
        else if (a == "--info") {
            std::printf("{\"id\": \"C39\", \"workers\": 8, \"rule\": \"inputs evolved by libFuzzer from small valid ones, guided by the coverage of the library, under AddressSanitizer and UndefinedBehaviorSanitizer: URIs and references, OSP system structures with OSP model descriptions, SSP descriptions with parameter values, scenarios, logging configurations, ZIP archives; accepted systems are also injected into an execution and stepped; non-trivial: an input which the library accepts\"}\n");
            return 0;
        } else
            return 2;
    }
    mkdir(o.out.c_str(), 0755);
    const auto base = fs::absolute(o.out).string();
    o.out = base + "/w" + std::to_string(o.worker);
    dir = o.out + "/scratch";
    for (auto& d : {o.out, dir, dir + "/tmp", o.out + "/found", o.out + "/corpus"}) {
        mkdir(d.c_str(), 0755);
        const uid_t id = 63100 + static_cast<uid_t>(o.worker);
        if (geteuid() == 0 && chown(d.c_str(), id, id)) return 3;
    }
    setenv("TMPDIR", (dir + "/tmp").c_str(), 1);
    setenv("TZ", "UTC", 1);

    if (!o.replay.empty()) {
        std::ifstream f(o.replay);
        std::string line, data;
        while (std::getline(f, line)) {
            if (line.rfind("target ", 0) == 0) current = &targets[std::stoi(line.substr(7))];
            if (line.rfind("data ", 0) == 0)
                for (std::size_t i = 5; i + 1 < line.size(); i += 2) data += static_cast<char>(std::stoi(line.substr(i, 2), nullptr, 16));
        }
        if (!current) return 2;
        o.verbose = false;
        const auto v = judge(data, 60);
        if (v == verdict::fine || v == verdict::memory) {
            std::printf("PASSED\n");
            return 0;
        }
        std::printf("FAILED tag=%s\n%s\n", v == verdict::hang ? "hang" : "failure", v == verdict::hang ? "the input was not dealt with in time" : lastReport.c_str());
        return 1;
    }

    const int index = o.worker % targetCount;
    current = &targets[index];
    inputForm = current->run == fuzz_scenario ? form::lines : current->run == fuzz_uri || current->run == fuzz_zip ? form::bytes : form::xml;
    {
        int n = 0;
        for (auto& s : current->seeds()) spit(o.out + "/corpus/seed" + std::to_string(n++), s);
        std::string dict, tokens = current->dictionary;
        if (current->maxLen > 1000 && current->run != fuzz_scenario && current->run != fuzz_zip) tokens = std::string(xmlDict) + tokens;
        // one entry per line
        bool quoted = false;
        for (std::size_t i = 0; i < tokens.size(); ++i) {
            if (tokens[i] == '\\' && i + 1 < tokens.size()) {
                dict += tokens[i];
                dict += tokens[++i];
                continue;
            }
            if (tokens[i] == '"') quoted = !quoted;
            dict += !quoted && tokens[i] == ' ' ? '\n' : tokens[i];
        }
        spit(o.out + "/dict", dict + "\n");
    }
    const double start = now();
    long total = o.cases >= 0 ? o.cases / targetCount + 1 : current->quickRuns * (o.thorough ? 12 : 1);
    int unconfirmed = 0;
    for (int round = 0; round < 20 && total > 0 && now() - start < o.maxSeconds; ++round) {
        const auto left = static_cast<long>(o.maxSeconds - (now() - start)) + 1;
        std::fflush(nullptr);
        const auto prefix = o.out + "/found/r" + std::to_string(round) + "-";
        stats.prefix = o.out + "/found/stats" + std::to_string(round);
        const pid_t pid = fork();
        if (pid == 0) {
            child_setup(o.out + "/found/log" + std::to_string(round));
            std::vector<std::string> args = {"fuzz", o.out + "/corpus", "-seed=" + std::to_string((o.seed * 1000 + static_cast<std::uint64_t>(o.worker) * 100 + static_cast<std::uint64_t>(round)) % 4000000000u + 1),
                "-runs=" + std::to_string(total), "-max_total_time=" + std::to_string(left), "-timeout=30", "-rss_limit_mb=2500", "-malloc_limit_mb=2500", "-detect_leaks=0",
                "-max_len=" + std::to_string(current->maxLen), "-dict=" + o.out + "/dict", "-artifact_prefix=" + prefix, "-print_final_stats=0", "-use_value_profile=0", "-mutate_depth=2", "-len_control=0", "-verbosity=0", "-close_fd_mask=0"};
            std::vector<char*> av;
            for (auto& x : args) av.push_back(&x[0]);
            av.push_back(nullptr);
            int ac = static_cast<int>(args.size());
            char** ap = av.data();
            stats.deadline = now() + static_cast<double>(left);
            std::atexit([] {
                stats.capped = now() > stats.deadline - 0.5;
                write_stats();
            });
            LLVMFuzzerRunDriver(&ac, &ap, &one_input);
            std::exit(0);
        }
        int status = 0;
        const auto end = now() + static_cast<double>(left) + 120;
        while (waitpid(pid, &status, WNOHANG) != pid) {
            if (now() > end) {
                kill(pid, SIGKILL);
                waitpid(pid, &status, 0);
                break;
            }
            usleep(20000);
        }
        // the results belong where check.py looks for them
        for (auto [from, to] : {std::pair{".json", "stats"}, {".bin", "distinct"}}) {
            std::error_code ec;
            fs::copy_file(stats.prefix + from, o.out + "/" + to + std::to_string(round) + from, fs::copy_options::overwrite_existing, ec);
        }
        std::string artifact;
        for (auto& e : fs::directory_iterator(o.out + "/found"))
            if (e.path().filename().string().rfind("r" + std::to_string(round) + "-", 0) == 0) artifact = e.path();
        if (artifact.empty()) {
            if (WIFEXITED(status) && WEXITSTATUS(status) == 0) break;
            // ended from outside, for the memory it used, or by us
            if (WIFSIGNALED(status) && WTERMSIG(status) == SIGKILL) {
                total /= 2;
                continue;
            }
            // it died without saying on what: nothing to show
            std::fprintf(stderr, "the fuzzer ended with status %d\n%s\n", status, slurp(o.out + "/found/log" + std::to_string(round)).substr(0, 3000).c_str());
            return 4;
        }
        auto data = slurp(artifact);
        auto v = judge(data, 60);
        auto agree = [&](const std::string& d, int times) {
            for (int i = 0; i < times; ++i)
                if (judge(d, 60) != v) return false;
            return true;
        };
        if ((v == verdict::failed && agree(data, 2)) || (v == verdict::hang && agree(data, 1))) {
            std::ofstream(o.out + "/failing") << "x\n";
            auto s = shrink(data, v, o.shrinkSeconds);
            if (agree(s, 2)) data = s;
            else agree(data, 1);
            const auto what = v == verdict::hang ? std::string("hang\nthe input was not dealt with in 60 s") : lastReport;
            std::ofstream r(o.out + "/replay.txt");
            r << "# fuzzing of property C39: " << current->name << "\ntarget " << index << "\ndata ";
            char b[4];
            for (unsigned char c : data) {
                std::snprintf(b, sizeof b, "%02x", c);
                r << b;
            }
            r << "\n";
            std::istringstream t("--- message\n" + what + "\n--- input\n" + escaped(data));
            for (std::string line; std::getline(t, line);) r << "# " << line << "\n";
            std::ofstream(o.out + "/violation") << current->name << ": " << what << "\n--- input\n" << escaped(data) << "\n";
            return 1;
        }
        if (v != verdict::memory) std::ofstream(o.out + "/unconfirmed" + std::to_string(unconfirmed++) + ".txt") << data;
        total /= 2;
    }
    return 0;
}
