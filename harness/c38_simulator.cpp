// C38: the simulator object given to algorithms, manipulators and observers honours its interface.
#include "sim.hpp"

#include <cosim/error.hpp>
#include <cosim/exception.hpp>

#include <cstring>
#include <map>
#include <set>

using namespace sim;
using cosim::value_reference;

namespace
{

bool same(const value& a, const value& b)
{
    if (a.index() != b.index()) return false;
    if (auto x = std::get_if<double>(&a)) {
        const auto y = std::get<double>(b);
        return std::memcmp(x, &y, sizeof y) == 0;
    }
    return a == b;
}

using key = std::pair<variable_type, value_reference>;
std::string show(const key& k) { return pbt::cat(static_cast<int>(k.first) == 0 ? "real" : k.first == variable_type::integer ? "integer" : k.first == variable_type::boolean ? "boolean" : "string", " ", k.second); }
using sim::show;

struct boom : std::runtime_error
{
    using std::runtime_error::runtime_error;
};

enum class ev
{
    setup,
    start,
    step,
    set,
    get,
    end
};

struct record
{
    ev what;
    std::vector<std::pair<key, value>> values;
    time_point t{};
    std::optional<time_point> stop;
    std::optional<double> tol;
    duration dt{};
};

class scripted : public cosim::slave
{
public:
    cosim::model_description md;
    std::map<key, value> values;
    mutable std::vector<record> log;
    std::uint64_t salt = 0;
    std::uint64_t state = 0;
    cosim::step_result result = cosim::step_result::complete;
    // Faults in the current operation.
    std::optional<variable_type> badValue;
    bool badValueIgnored = false;
    int badValueKind = 0;
    std::optional<ev> fail;
    std::optional<variable_type> failType;

    cosim::model_description model_description() const override { return md; }
    void setup(time_point t, std::optional<time_point> stop, std::optional<double> tol) override
    {
        record r{ev::setup};
        r.t = t;
        r.stop = stop;
        r.tol = tol;
        log.push_back(r);
        check(ev::setup);
        change();
    }
    void start_simulation() override
    {
        log.push_back({ev::start});
        check(ev::start);
        change();
    }
    void end_simulation() override { log.push_back({ev::end}); }
    cosim::step_result do_step(time_point t, duration dt) override
    {
        record r{ev::step};
        r.t = t;
        r.dt = dt;
        log.push_back(r);
        check(ev::step);
        change();
        return result;
    }
    template<typename T>
    void get_impl(variable_type t, gsl::span<const value_reference> refs, gsl::span<T> out) const
    {
        if (refs.size() != out.size()) report("get-sizes", "a slave is asked for values with arrays of different sizes");
        record r{ev::get};
        for (std::size_t i = 0; i < static_cast<std::size_t>(refs.size()); ++i) {
            const key k{t, refs[i]};
            const auto it = values.find(k);
            if (it == values.end()) {
                report("get-unknown", pbt::cat("a slave is asked for its nonexistent variable ", ::show(k)));
                continue;
            }
            out[i] = std::get<T>(it->second);
            r.values.emplace_back(k, it->second);
        }
        log.push_back(r);
        if (fail == ev::get && failType == t) throw boom("failing get");
    }
    template<typename T>
    void set_impl(variable_type t, gsl::span<const value_reference> refs, gsl::span<const T> in)
    {
        if (refs.size() != in.size()) report("set-sizes", "a slave is given values in arrays of different sizes");
        record r{ev::set};
        for (std::size_t i = 0; i < static_cast<std::size_t>(refs.size()); ++i) {
            const key k{t, refs[i]};
            r.values.emplace_back(k, value(T(in[i])));
            const auto it = values.find(k);
            if (it == values.end()) report("set-unknown", pbt::cat("a slave is given a value for its nonexistent variable ", ::show(k)));
            else if (!(badValue == t && badValueIgnored)) it->second = T(in[i]);
        }
        log.push_back(r);
        if (fail == ev::set && failType == t) throw boom("failing set");
        if (badValue == t) throw cosim::nonfatal_bad_value("bad value");
    }
    void get_real_variables(gsl::span<const value_reference> r, gsl::span<double> v) const override { get_impl<double>(variable_type::real, r, v); }
    void get_integer_variables(gsl::span<const value_reference> r, gsl::span<int> v) const override { get_impl<int>(variable_type::integer, r, v); }
    void get_boolean_variables(gsl::span<const value_reference> r, gsl::span<bool> v) const override { get_impl<bool>(variable_type::boolean, r, v); }
    void get_string_variables(gsl::span<const value_reference> r, gsl::span<std::string> v) const override { get_impl<std::string>(variable_type::string, r, v); }
    void set_real_variables(gsl::span<const value_reference> r, gsl::span<const double> v) override { set_impl<double>(variable_type::real, r, v); }
    void set_integer_variables(gsl::span<const value_reference> r, gsl::span<const int> v) override { set_impl<int>(variable_type::integer, r, v); }
    void set_boolean_variables(gsl::span<const value_reference> r, gsl::span<const bool> v) override { set_impl<bool>(variable_type::boolean, r, v); }
    void set_string_variables(gsl::span<const value_reference> r, gsl::span<const std::string> v) override { set_impl<std::string>(variable_type::string, r, v); }

private:
    void check(ev e)
    {
        if (fail == e) throw boom("failing call");
    }
    void change()
    {
        ++state;
        std::uint64_t n = 0;
        for (auto& [k, v] : values) {
            ++n;
            const auto& vd = *std::find_if(md.variables.begin(), md.variables.end(), [&, k = k](auto& x) { return x.type == k.first && x.reference == k.second; });
            if (vd.causality == variable_causality::input || vd.causality == variable_causality::parameter) continue;
            v = derive(mix(mix(mix(salt, state), n), 7), k.first);
        }
    }
};

class catcher : public cosim::algorithm
{
public:
    std::map<int, cosim::simulator*> sims;
    void add_simulator(cosim::simulator_index i, cosim::simulator* s, duration) override { sims[i] = s; }
    void remove_simulator(cosim::simulator_index) override { }
    void add_function(cosim::function_index, cosim::function*) override { }
    void connect_variables(cosim::variable_id, cosim::variable_id) override { }
    void connect_variables(cosim::variable_id, cosim::function_io_id) override { }
    void connect_variables(cosim::function_io_id, cosim::variable_id) override { }
    void disconnect_variable(cosim::variable_id) override { }
    void disconnect_variable(cosim::function_io_id) override { }
    void setup(time_point, std::optional<time_point>) override { }
    void initialize() override { }
    std::pair<duration, std::unordered_set<cosim::simulator_index>> do_step(time_point) override { return {duration(1), {}}; }
};

struct grabber : cosim::manipulator, cosim::observer
{
    std::map<int, cosim::manipulable*> m;
    std::map<int, cosim::observable*> o;
    void simulator_added(cosim::simulator_index i, cosim::manipulable* p, time_point) override { m[i] = p; }
    void simulator_added(cosim::simulator_index i, cosim::observable* p, time_point) override { o[i] = p; }
    void simulator_removed(cosim::simulator_index, time_point) override { }
    void step_commencing(time_point) override { }
    void variables_connected(cosim::variable_id, cosim::variable_id, time_point) override { }
    void variable_disconnected(cosim::variable_id, time_point) override { }
    void simulation_initialized(cosim::step_number, time_point) override { }
    void step_complete(cosim::step_number, duration, time_point) override { }
    void simulator_step_complete(cosim::simulator_index, cosim::step_number, duration, time_point) override { }
};

// A modifier which records its calls.
struct modifier
{
    std::uint64_t salt;
    int kind; // 0 constant, 1 function
    value constant;
    std::vector<std::pair<value, duration>> calls;
    value apply(const value& v, duration d) const
    {
        if (kind == 0) return constant;
        return derive(mix(mix(salt, v), static_cast<std::uint64_t>(d.count())), type_of(v));
    }
    value call(const value& v, duration d)
    {
        calls.emplace_back(v, d);
        return apply(v, d);
    }
};

template<typename T, typename Arg>
std::function<T(Arg, duration)> fn(const std::shared_ptr<modifier>& m)
{
    if (!m) return nullptr;
    return [m](Arg a, duration d) -> T { return std::get<T>(m->call(value(T(a)), d)); };
}

struct variable_model
{
    bool setExposed = false, getExposed = false;
    value last; // last set, or the start value
    bool pending = false;
    value shown;
    bool shownKnown = false;
    std::shared_ptr<modifier> in, out;
};

enum class phase
{
    created,
    initialisation,
    simulation,
    broken
};

struct subject
{
    std::string name;
    std::shared_ptr<scripted> slave;
    std::map<key, variable_model> vars;
    std::map<key, std::string> names;
    phase ph = phase::created;
    time_point now;
    cosim::simulator* s = nullptr;
    cosim::manipulable* m = nullptr;
    cosim::observable* o = nullptr;
    int index = 0;
};

value read(cosim::observable* o, const key& k)
{
    switch (k.first) {
        case variable_type::real: return o->get_real(k.second);
        case variable_type::integer: return o->get_integer(k.second);
        case variable_type::boolean: return o->get_boolean(k.second);
        default: return std::string(o->get_string(k.second));
    }
}

void assign(cosim::simulator* s, const key& k, const value& v)
{
    switch (k.first) {
        case variable_type::real: return s->set_real(k.second, std::get<double>(v));
        case variable_type::integer: return s->set_integer(k.second, std::get<int>(v));
        case variable_type::boolean: return s->set_boolean(k.second, std::get<bool>(v));
        default: {
            // The argument is gone right afterwards.
            auto copy = std::make_unique<std::string>(std::get<std::string>(v));
            s->set_string(k.second, *copy);
        }
    }
}

void set_modifier(cosim::manipulable* s, const key& k, bool input, const std::shared_ptr<modifier>& m)
{
    switch (k.first) {
        case variable_type::real: return input ? s->set_real_input_modifier(k.second, fn<double, double>(m)) : s->set_real_output_modifier(k.second, fn<double, double>(m));
        case variable_type::integer: return input ? s->set_integer_input_modifier(k.second, fn<int, int>(m)) : s->set_integer_output_modifier(k.second, fn<int, int>(m));
        case variable_type::boolean: return input ? s->set_boolean_input_modifier(k.second, fn<bool, bool>(m)) : s->set_boolean_output_modifier(k.second, fn<bool, bool>(m));
        default: return input ? s->set_string_input_modifier(k.second, fn<std::string, std::string_view>(m)) : s->set_string_output_modifier(k.second, fn<std::string, std::string_view>(m));
    }
}

std::set<value_reference> modified(const cosim::simulator* s, variable_type t)
{
    const auto& r = t == variable_type::real ? s->get_modified_real_variables()
        : t == variable_type::integer        ? s->get_modified_integer_variables()
        : t == variable_type::boolean        ? s->get_modified_boolean_variables()
                                             : s->get_modified_string_variables();
    return {r.begin(), r.end()};
}

const variable_type types[] = {variable_type::real, variable_type::integer, variable_type::boolean, variable_type::string};

void run(pbt::test_case& c)
{
    clear_reports();
    const auto start = at(c.weighted({50, 50}) == 0 ? 0 : c.range(-4'000'000'000'000'000'000LL, 4'000'000'000'000'000'000LL));
    auto algo = std::make_shared<catcher>();
    auto exe = std::make_unique<cosim::execution>(start, algo);
    auto grab = std::make_shared<grabber>();
    exe->add_manipulator(grab);
    exe->add_observer(grab);

    std::vector<subject> subjects(c.chance(75) ? 1 : 2);
    for (std::size_t i = 0; i < subjects.size(); ++i) {
        auto& u = subjects[i];
        u.index = static_cast<int>(i);
        u.name = pbt::cat("sim-", i);
        u.slave = std::make_shared<scripted>();
        u.slave->salt = c.draw(1'000'000);
        u.slave->md.name = "model";
        u.slave->md.uuid = pbt::cat("uuid-", i);
        const bool sharedRefs = c.chance(70); // the same references in all types
        int n = 0;
        for (auto t : types) {
            std::set<value_reference> used;
            const int count = c.irange(0, 4);
            for (int j = 0; j < count; ++j) {
                const auto ref = static_cast<value_reference>(sharedRefs ? c.range(0, 5) : c.range(0, 4'294'967'295LL));
                if (!used.insert(ref).second) continue;
                cosim::variable_description vd;
                vd.name = pbt::cat("v", n++);
                vd.reference = ref;
                vd.type = t;
                vd.causality = c.one_of<variable_causality>({variable_causality::input, variable_causality::output, variable_causality::parameter, variable_causality::local, variable_causality::calculated_parameter});
                vd.variability = variable_variability::discrete;
                if (c.chance(60)) vd.start = gen_value(c, t);
                u.slave->md.variables.push_back(vd);
                u.slave->values[{t, ref}] = vd.start ? *vd.start : default_value(t);
                u.names[{t, ref}] = vd.name;
                variable_model vm;
                vm.last = vd.start ? *vd.start : default_value(t);
                u.vars[{t, ref}] = vm;
            }
        }
        c.shuffle(u.slave->md.variables);
        u.now = start;
        const auto idx = exe->add_slave(u.slave, u.name);
        PBT_REQUIRE("index", idx == static_cast<int>(i), "unexpected index ", idx);
        u.s = algo->sims.at(idx);
        u.m = grab->m.at(idx);
        u.o = grab->o.at(idx);
        u.slave->log.clear();
        PBT_REQUIRE("name", u.s->name() == u.name && u.o->name() == u.name, "the simulator's name is ", u.s->name());
        PBT_REQUIRE("description", u.s->model_description().uuid == u.slave->md.uuid && u.s->model_description().variables.size() == u.slave->md.variables.size(), "another model description");
    }

    int updates = 0, setsSeen = 0, modified_ = 0, reads = 0;

    auto checkShown = [&](subject& u, const std::string& op) {
        if (u.ph == phase::broken) return;
        for (auto& [k, v] : u.vars) {
            if (v.getExposed && v.shownKnown) {
                const auto r = read(c.chance(50) ? static_cast<cosim::observable*>(u.s) : u.o, k);
                ++reads;
                PBT_REQUIRE("value-read", same(r, v.shown), "after ", op, ", variable ", ::show(k), " of ", u.name, " reads ", show(r), " instead of ", show(v.shown));
            }
        }
        for (auto t : types) {
            std::set<value_reference> e;
            for (auto& [k, v] : u.vars)
                if (k.first == t && (v.in || v.out)) e.insert(k.second);
            const auto g = modified(u.s, t);
            if (g != e) {
                std::string gs, es;
                for (auto x : g) gs += pbt::cat(" ", x);
                for (auto x : e) es += pbt::cat(" ", x);
                pbt::fail("modified-variables", pbt::cat("after ", op, ", the modified variables of type ", static_cast<int>(t), " are given as", gs, ", but those with a modifier are", es));
            }
        }
    };
    auto quiet = [&](subject& u, const std::string& op) {
        // Nothing but reading reaches the slave outside of updates.
        for (auto& r : u.slave->log)
            if (r.what != ev::get) pbt::fail("slave-touched", pbt::cat(op, " made a call to the slave of ", u.name, r.what == ev::set ? " (set)" : ""));
        u.slave->log.clear();
    };

    // One life cycle call which transfers values.
    enum kind
    {
        k_setup,
        k_iterate,
        k_start,
        k_step
    };
    auto update = [&](subject& u, kind kd) {
        auto& sl = *u.slave;
        const auto dt = kd == k_step ? duration(c.chance(20) ? 1 : c.range(1, 1'000'000'000'000LL)) : duration(0);
        const std::string op = kd == k_setup ? "setup()" : kd == k_iterate ? "do_iteration()" : kd == k_start ? "start_simulation()" : "do_step()";
        // faults
        sl.badValue.reset();
        sl.fail.reset();
        sl.failType.reset();
        sl.result = cosim::step_result::complete;
        if (kd != k_setup && c.chance(10)) {
            sl.badValue = types[c.irange(0, 3)];
            sl.badValueIgnored = c.chance(50);
            c.label("non-fatal bad value");
        }
        if (c.chance(3)) {
            switch (c.irange(0, 2)) {
                case 0:
                    sl.fail = kd == k_setup ? ev::setup : kd == k_start ? ev::start : kd == k_step ? ev::step : ev::get;
                    sl.failType = variable_type::real;
                    break;
                case 1:
                    sl.fail = kd == k_setup ? ev::setup : ev::set;
                    sl.failType = types[c.irange(0, 3)];
                    break;
                default:
                    sl.fail = ev::get;
                    sl.failType = types[c.irange(0, 3)];
            }
        }
        if (kd == k_step && c.chance(10)) sl.result = c.chance(50) ? cosim::step_result::failed : cosim::step_result::canceled;
        for (auto& [k, v] : u.vars) {
            if (v.in) v.in->calls.clear();
            if (v.out) v.out->calls.clear();
        }
        std::optional<time_point> stop;
        std::optional<double> tol;
        if (c.chance(30)) stop = u.now + duration(c.range(1, 1'000'000'000'000'000LL));
        if (c.chance(30)) tol = c.real();
        c.note(pbt::cat(u.name, ": ", op, kd == k_step ? pbt::cat(" of ", dt.count(), " ns") : std::string(), sl.badValue ? " with a bad value" : "", sl.fail ? " with a fault" : ""));

        bool threw = false;
        cosim::step_result res = cosim::step_result::complete;
        try {
            switch (kd) {
                case k_setup: u.s->setup(u.now, stop, tol); break;
                case k_iterate: u.s->do_iteration(); break;
                case k_start: u.s->start_simulation(); break;
                default: res = u.s->do_step(u.now, dt);
            }
        } catch (const boom& e) {
            threw = true;
        }
        check_reports();
        if (sl.fail) {
            // A set or get with no variables need not be made.
            bool certain = sl.fail != ev::get && sl.fail != ev::set;
            for (auto& [k, v] : u.vars) {
                if (k.first != *sl.failType) continue;
                if (sl.fail == ev::get && v.getExposed) certain = true;
                if (sl.fail == ev::set && (v.pending || v.in)) certain = true;
            }
            if (certain) PBT_REQUIRE("exception-lost", threw, "an exception from the slave did not get through ", op);
            if (threw) {
                c.label("fatal exception");
                u.ph = phase::broken;
                sl.log.clear();
                return;
            }
        } else {
            PBT_REQUIRE("exception", !threw, "an exception out of nowhere");
        }
        // What must have been set
        std::map<key, value> expected;
        if (kd != k_setup) {
            for (auto& [k, v] : u.vars) {
                if (!v.pending && !v.in) continue;
                expected[k] = v.in ? v.in->apply(v.last, dt) : v.last;
                if (v.in) {
                    for (auto& [a, d] : v.in->calls)
                        PBT_REQUIRE("input-modifier-args", same(a, v.last) && d == dt, "in ", op, ", the input modifier of ", ::show(k), " was called with ", show(a), " and ", d.count(), " ns instead of ", show(v.last), " and ", dt.count());
                    if (kd == k_step) PBT_REQUIRE("input-modifier-count", v.in->calls.size() == 1, "in one step, the input modifier of ", ::show(k), " was called ", v.in->calls.size(), " times");
                    ++modified_;
                }
                v.pending = false;
            }
        }
        std::map<key, value> got;
        int mainCalls = 0;
        bool sawGet = false;
        for (auto& r : sl.log) {
            switch (r.what) {
                case ev::set:
                    if (r.values.empty()) break;
                    PBT_REQUIRE("set-too-late", mainCalls == 0 && !sawGet, "in ", op, ", the slave is given values after its own call");
                    for (auto& [k, v] : r.values) PBT_REQUIRE("set-twice", got.emplace(k, v).second, "in ", op, ", the slave is given a value for ", ::show(k), " twice");
                    break;
                case ev::get:
                    if (r.values.empty()) break;
                    PBT_REQUIRE("get-too-early", kd == k_iterate || mainCalls == 1, "in ", op, ", values are read before the slave's own call");
                    sawGet = true;
                    break;
                case ev::setup:
                    ++mainCalls;
                    PBT_REQUIRE("main-call", kd == k_setup, op, " calls setup()");
                    PBT_REQUIRE("setup-args", r.t == u.now && r.stop == stop && r.tol.has_value() == tol.has_value() && (!tol || same(value(*tol), value(*r.tol))), "setup() of the slave gets other arguments");
                    break;
                case ev::start:
                    ++mainCalls;
                    PBT_REQUIRE("main-call", kd == k_start, op, " calls start_simulation()");
                    break;
                case ev::step:
                    ++mainCalls;
                    PBT_REQUIRE("main-call", kd == k_step, op, " calls do_step()");
                    PBT_REQUIRE("step-args", r.t == u.now && r.dt == dt, "do_step() of the slave gets other arguments");
                    break;
                case ev::end: pbt::fail("main-call", op + " calls end_simulation()");
            }
        }
        PBT_REQUIRE("main-call", mainCalls == (kd == k_iterate ? 0 : 1), op, " makes ", mainCalls, " calls to the slave");
        for (auto& [k, v] : expected) {
            const auto it = got.find(k);
            PBT_REQUIRE("set-missing", it != got.end(), "in ", op, ", the slave is not given a value for ", ::show(k));
            PBT_REQUIRE("set-value", same(it->second, v), "in ", op, ", the slave is given ", show(it->second), " for ", ::show(k), " instead of ", show(v));
            ++setsSeen;
        }
        for (auto& [k, v] : got) PBT_REQUIRE("set-unasked", expected.count(k), "in ", op, ", the slave is given the value ", show(v), " for ", ::show(k), ", which nobody has set");
        sl.log.clear();
        // What can be read now
        for (auto& [k, v] : u.vars) {
            if (!v.getExposed) continue;
            const auto& raw = sl.values.at(k);
            v.shown = v.out ? v.out->apply(raw, dt) : raw;
            v.shownKnown = true;
            if (v.out) {
                for (auto& [a, d] : v.out->calls) PBT_REQUIRE("output-modifier-args", same(a, raw) && d == dt, "in ", op, ", the output modifier of ", ::show(k), " was called with ", show(a), " and ", d.count(), " ns instead of ", show(raw), " and ", dt.count());
                if (kd == k_step) PBT_REQUIRE("output-modifier-count", v.out->calls.size() == 1, "in one step, the output modifier of ", ::show(k), " was called ", v.out->calls.size(), " times");
                ++modified_;
            }
        }
        if (kd == k_setup) u.ph = phase::initialisation;
        if (kd == k_start) u.ph = phase::simulation;
        if (kd == k_step) {
            PBT_REQUIRE("step-result", res == sl.result, "do_step() returns another result than the slave's");
            u.now += dt;
        }
        ++updates;
        checkShown(u, op);
    };

    c.repeat(5, 60, 25, [&](int) {
        auto& u = subjects[c.irange(0, static_cast<int>(subjects.size()) - 1)];
        if (u.ph == phase::broken) return;
        std::optional<key> k;
        if (!u.vars.empty()) k = std::next(u.vars.begin(), c.irange(0, static_cast<int>(u.vars.size()) - 1))->first;
        const int what = c.weighted({15, 15, 20, 14, 12, 8, 25});
        if (what < 6 && !k) return;
        switch (what) {
            case 0: {
                auto& v = u.vars[*k];
                c.note(pbt::cat(u.name, ": expose_for_getting ", ::show(*k)));
                (c.chance(50) ? static_cast<cosim::observable*>(u.s) : u.o)->expose_for_getting(k->first, k->second);
                quiet(u, "expose_for_getting()");
                if (!v.getExposed) {
                    v.getExposed = true;
                    if (u.ph != phase::created) {
                        v.shown = u.slave->values.at(*k);
                        v.shownKnown = true;
                        c.label("exposed while running");
                    }
                }
                checkShown(u, "expose_for_getting()");
                break;
            }
            case 1: {
                auto& v = u.vars[*k];
                c.note(pbt::cat(u.name, ": expose_for_setting ", ::show(*k)));
                (c.chance(50) ? static_cast<cosim::manipulable*>(u.s) : u.m)->expose_for_setting(k->first, k->second);
                quiet(u, "expose_for_setting()");
                v.setExposed = true;
                checkShown(u, "expose_for_setting()");
                break;
            }
            case 2: {
                auto& v = u.vars[*k];
                const auto val = gen_value(c, k->first);
                const bool initial = u.ph == phase::created && c.chance(30);
                c.note(pbt::cat(u.name, ": set ", ::show(*k), " to ", show(val), initial ? " as initial value" : ""));
                if (initial) {
                    switch (k->first) {
                        case variable_type::real: exe->set_real_initial_value(u.index, k->second, std::get<double>(val)); break;
                        case variable_type::integer: exe->set_integer_initial_value(u.index, k->second, std::get<int>(val)); break;
                        case variable_type::boolean: exe->set_boolean_initial_value(u.index, k->second, std::get<bool>(val)); break;
                        default: exe->set_string_initial_value(u.index, k->second, std::get<std::string>(val));
                    }
                    v.setExposed = true;
                    v.last = val;
                    v.pending = true;
                } else if (v.setExposed) {
                    assign(u.s, *k, val);
                    if (v.pending) c.label("set repeatedly");
                    v.last = val;
                    v.pending = true;
                } else {
                    try {
                        assign(u.s, *k, val);
                        pbt::fail("unexposed-set", "a variable was set although it was not exposed for setting");
                    } catch (const std::out_of_range&) {
                    }
                    c.label("unexposed");
                }
                quiet(u, "set_*()");
                checkShown(u, "set_*()");
                break;
            }
            case 3:
            case 4: {
                auto& v = u.vars[*k];
                const bool input = what == 3;
                auto& slot = input ? v.in : v.out;
                std::shared_ptr<modifier> m;
                if (!slot || c.chance(60)) {
                    m = std::make_shared<modifier>();
                    m->salt = c.draw(100000);
                    m->kind = c.irange(0, 1);
                    m->constant = gen_value(c, k->first);
                }
                const bool exposed = input ? v.setExposed : v.getExposed;
                // The documentation and the code disagree on what an output modifier needs.
                if (!input && !exposed && v.setExposed) break;
                c.note(pbt::cat(u.name, ": ", m ? "set " : "remove ", input ? "input" : "output", " modifier of ", ::show(*k)));
                auto* target = c.chance(50) ? static_cast<cosim::manipulable*>(u.s) : u.m;
                if (exposed) {
                    set_modifier(target, *k, input, m);
                    slot = m;
                    if (input) v.pending = true; // the slave must get to know
                    else v.shownKnown = false; // until the next update
                    if (!m) c.label("modifier removed");
                    if (v.in && v.out) c.label("both modifiers");
                } else {
                    try {
                        set_modifier(target, *k, input, m);
                        pbt::fail("unexposed-modifier", "a modifier was set for a variable that was not exposed");
                    } catch (const std::out_of_range&) {
                    }
                    c.label("unexposed");
                }
                quiet(u, "set_*_modifier()");
                checkShown(u, "set_*_modifier()");
                break;
            }
            case 5: {
                // something that isn't there
                auto& v = u.vars[*k];
                if (c.chance(50)) {
                    if (v.getExposed) break;
                    c.note(pbt::cat(u.name, ": get ", ::show(*k), ", which is not exposed"));
                    try {
                        read(u.o, *k);
                        pbt::fail("unexposed-get", pbt::cat("variable ", ::show(*k), " could be read although it was not exposed for getting"));
                    } catch (const std::out_of_range&) {
                    }
                } else {
                    const auto ref = static_cast<value_reference>(c.range(0, 7));
                    const auto t = types[c.irange(0, 3)];
                    if (u.vars.count({t, ref})) break;
                    c.note(pbt::cat(u.name, ": expose_for_setting of unknown ", ::show({t, ref})));
                    try {
                        u.m->expose_for_setting(t, ref);
                        pbt::fail("unknown-exposed", pbt::cat("the unknown variable ", ::show({t, ref}), " was exposed for setting"));
                    } catch (const std::out_of_range&) {
                    }
                }
                c.label("invalid use");
                quiet(u, "invalid use");
                checkShown(u, "invalid use");
                break;
            }
            case 6: {
                switch (u.ph) {
                    case phase::created: update(u, k_setup); break;
                    case phase::initialisation: update(u, c.chance(50) ? k_iterate : k_start); break;
                    default: update(u, k_step);
                }
                break;
            }
        }
        check_reports();
        for (auto& w : subjects)
            if (&w != &u) {
                PBT_REQUIRE("crosstalk", w.slave->log.empty(), "an operation on one simulator reaches the slave of another");
                checkShown(w, "an operation on another simulator");
            }
    });
    if (updates >= 2 && setsSeen >= 1 && reads >= 1) c.nontrivial();
    if (modified_) c.label("modified values");
    if (subjects.size() > 1) c.label("two simulators");
}

} // namespace

int main(int argc, char** argv)
{
    pbt::spec s;
    s.id = "C38";
    s.rule = "at least two life cycle calls, one value that reaches a slave and one value read";
    s.quick_cases = 40000;
    s.thorough_cases = 2000000;
    s.setup = setup_process;
    s.run = run;
    return pbt::main(argc, argv, s);
}
