// C37: a user-supplied algorithm is driven by the documented protocol.
#include "sim.hpp"

#include <cosim/error.hpp>
#include <cosim/exception.hpp>

#include <future>
#include <set>

using namespace sim;

namespace
{

struct boom : std::runtime_error
{
    using std::runtime_error::runtime_error;
};

// One entry of the history seen by the algorithm, the observers and the manipulators together.
struct entry
{
    std::string who; // "A", "O0", "M0" ...
    std::string what;
};

struct step_plan
{
    duration size{1};
    std::set<int> finished;
    bool stop = false;
    int fail = 0; // 1: throws
};

struct shared_state
{
    std::vector<entry> log;
    cosim::execution* exe = nullptr;
    std::function<step_plan()> nextStep;
    std::function<void()> onInitialize;
    void add(std::string who, std::string what) { log.push_back({std::move(who), std::move(what)}); }
};

std::string show(const cosim::variable_id& v) { return pbt::cat("(", v.simulator, ",", static_cast<int>(v.type), ",", v.reference, ")"); }
std::string show(const cosim::function_io_id& v)
{
    return pbt::cat("f(", v.function, ",", static_cast<int>(v.type), ",", v.reference.group, ",", v.reference.group_instance, ",", v.reference.io, ",", v.reference.io_instance, ")");
}
using sim::show;

class probe : public cosim::algorithm
{
public:
    explicit probe(std::shared_ptr<shared_state> s)
        : s_(std::move(s))
    { }
    std::map<int, cosim::simulator*> sims;
    std::map<int, cosim::function*> funs;
    int refuse = 0; // refuses the next connection

    void add_simulator(cosim::simulator_index i, cosim::simulator* p, duration hint) override
    {
        sims[i] = p;
        log(pbt::cat("add_simulator ", i, " ", p->name(), " ", p->model_description().uuid, " hint=", hint.count()));
    }
    void remove_simulator(cosim::simulator_index i) override { log(pbt::cat("remove_simulator ", i)); }
    void add_function(cosim::function_index i, cosim::function* f) override
    {
        funs[i] = f;
        log(pbt::cat("add_function ", i));
    }
    void connect_variables(cosim::variable_id o, cosim::variable_id i) override { conn(pbt::cat("connect ", ::show(o), " -> ", ::show(i))); }
    void connect_variables(cosim::variable_id o, cosim::function_io_id i) override { conn(pbt::cat("connect ", ::show(o), " -> ", ::show(i))); }
    void connect_variables(cosim::function_io_id o, cosim::variable_id i) override { conn(pbt::cat("connect ", ::show(o), " -> ", ::show(i))); }
    void disconnect_variable(cosim::variable_id i) override { log(pbt::cat("disconnect ", ::show(i))); }
    void disconnect_variable(cosim::function_io_id i) override { log(pbt::cat("disconnect ", ::show(i))); }
    void setup(time_point start, std::optional<time_point> stop) override
    {
        stop_ = stop;
        log(pbt::cat("setup ", show(start)));
    }
    void initialize() override
    {
        log("initialize");
        if (s_->onInitialize) s_->onInitialize();
    }
    std::pair<duration, std::unordered_set<cosim::simulator_index>> do_step(time_point t) override
    {
        log(pbt::cat("do_step ", show(t)));
        if (stop_ && t >= *stop_) report("beyond-stop-time", "the algorithm is stepped beyond the stop time given to setup()");
        if (s_->exe && s_->exe->current_time() != t) report("time-in-step", pbt::cat("current_time() is ", show(s_->exe->current_time()), " in do_step(", show(t), ")"));
        const auto p = s_->nextStep();
        if (p.stop) s_->exe->stop_simulation();
        if (p.fail) throw boom("failing step");
        return {p.size, std::unordered_set<cosim::simulator_index>(p.finished.begin(), p.finished.end())};
    }

private:
    void log(std::string w) { s_->add("A", std::move(w)); }
    void conn(std::string w)
    {
        if (refuse) {
            refuse = 0;
            throw boom("refused connection");
        }
        log(std::move(w));
    }
    std::shared_ptr<shared_state> s_;
    std::optional<time_point> stop_;
};

class obs : public cosim::observer
{
public:
    obs(std::shared_ptr<shared_state> s, int n)
        : s_(std::move(s))
        , n_(n)
    { }
    void simulator_added(cosim::simulator_index i, cosim::observable* o, time_point t) override { log(pbt::cat("added ", i, " ", o->name(), " ", o->model_description().uuid, " at ", show(t))); }
    void simulator_removed(cosim::simulator_index i, time_point) override { log(pbt::cat("removed ", i)); }
    void variables_connected(cosim::variable_id a, cosim::variable_id b, time_point t) override { log(pbt::cat("connected ", ::show(a), " -> ", ::show(b), " at ", show(t))); }
    void variable_disconnected(cosim::variable_id a, time_point) override { log(pbt::cat("disconnected ", ::show(a))); }
    void simulation_initialized(cosim::step_number k, time_point t) override { log(pbt::cat("initialized ", k, " at ", show(t))); }
    void step_complete(cosim::step_number k, duration d, time_point t) override
    {
        log(pbt::cat("step ", k, " ", d.count(), " at ", show(t)));
        if (s_->exe && s_->exe->current_time() != t) report("time-in-observer", pbt::cat("current_time() is ", show(s_->exe->current_time()), " in step_complete(", show(t), ")"));
    }
    void simulator_step_complete(cosim::simulator_index i, cosim::step_number k, duration d, time_point t) override { log(pbt::cat("simulator ", i, " step ", k, " ", d.count(), " at ", show(t))); }

private:
    void log(std::string w) { s_->add(pbt::cat("O", n_), std::move(w)); }
    std::shared_ptr<shared_state> s_;
    int n_;
};

class man : public cosim::manipulator
{
public:
    man(std::shared_ptr<shared_state> s, int n)
        : s_(std::move(s))
        , n_(n)
    { }
    bool fail = false;
    void simulator_added(cosim::simulator_index i, cosim::manipulable* o, time_point t) override { log(pbt::cat("added ", i, " ", o->name(), " ", o->model_description().uuid, " at ", show(t))); }
    void simulator_removed(cosim::simulator_index i, time_point) override { log(pbt::cat("removed ", i)); }
    void step_commencing(time_point t) override
    {
        log(pbt::cat("commencing ", show(t)));
        if (fail) {
            fail = false;
            throw boom("failing manipulator");
        }
    }

private:
    void log(std::string w) { s_->add(pbt::cat("M", n_), std::move(w)); }
    std::shared_ptr<shared_state> s_;
    int n_;
};

void run(pbt::test_case& c)
{
    clear_reports();
    auto st = std::make_shared<shared_state>();
    const auto start = at(c.weighted({40, 60}) == 0 ? 0 : c.range(-4'000'000'000'000'000'000LL, 4'000'000'000'000'000'000LL));
    std::weak_ptr<probe> alive;
    probe* algo = nullptr;
    std::unique_ptr<cosim::execution> exe;
    {
        auto a = std::make_shared<probe>(st);
        alive = a;
        algo = a.get();
        exe = std::make_unique<cosim::execution>(start, a);
        st->exe = exe.get();
    }
    PBT_REQUIRE("algorithm-lifetime", !alive.expired(), "the execution does not keep its algorithm alive");

    // --- the model ---
    time_point now = start;
    long long steps = 0;
    bool initialized = false, failed = false;
    std::vector<std::string> names;
    std::vector<std::shared_ptr<slave_def>> defs;
    std::vector<std::shared_ptr<rec_slave>> slaves;
    std::vector<std::shared_ptr<fun_def>> funDefs;
    std::vector<std::shared_ptr<obs>> observers;
    std::vector<std::shared_ptr<man>> manipulators;
    std::set<std::string> usedInputs;
    // What everyone must have been told in the current operation; checked and cleared after each.
    std::map<std::string, std::vector<std::string>> expected;
    int refusedConnections = 0, connections = 0, throwing = 0;

    expected["A"].push_back(pbt::cat("setup ", show(start)));

    // Order in the log of entries that must be ordered: (before, after) predicates are checked by phase.
    auto settle = [&](const std::string& op) {
        check_reports();
        std::map<std::string, std::vector<std::string>> got;
        for (auto& e : st->log) got[e.who].push_back(e.what);
        auto dump = [&] {
            std::string s;
            for (auto& e : st->log) s += pbt::cat("  ", e.who, ": ", e.what, "\n");
            return s;
        };
        std::set<std::string> who;
        for (auto& [w, l] : got) who.insert(w);
        for (auto& [w, l] : expected) who.insert(w);
        for (auto& w : who) {
            // Completed simulators may be reported in any order within a step.
            auto canon = [](std::vector<std::string> v) {
                for (std::size_t i = 0; i < v.size();) {
                    std::size_t j = i;
                    while (j < v.size() && v[j].rfind("simulator ", 0) == 0) ++j;
                    std::sort(v.begin() + i, v.begin() + j);
                    i = j + 1;
                }
                return v;
            };
            const auto e = canon(expected[w]), g = canon(got[w]);
            if (e != g) {
                std::string es;
                for (auto& x : e) es += "  " + x + "\n";
                pbt::fail(w[0] == 'A' ? "algorithm-told" : w[0] == 'O' ? "observer-told" : "manipulator-told",
                    pbt::cat("in ", op, ", ", w, " should have been told:\n", es, "but what happened was:\n", dump()));
            }
        }
        // Across parties: initialisation, then the manipulators, then the step, then the observers.
        int phase = 0;
        for (auto& e : st->log) {
            int p = -1;
            if (e.what == "initialize") p = 0;
            else if (e.what.rfind("commencing ", 0) == 0) p = 1;
            else if (e.what.rfind("do_step ", 0) == 0) p = 2;
            else if (e.what.rfind("step ", 0) == 0 || e.what.rfind("simulator ", 0) == 0) p = 3;
            if (p < 0) continue;
            // Another step may begin after a finished one.
            if (p < phase && !(p == 1 && phase >= 2) && !(p == 2 && phase == 3)) pbt::fail("order", pbt::cat("in ", op, ": events in the wrong order:\n", dump()));
            phase = p;
        }
        st->log.clear();
        expected.clear();
        PBT_REQUIRE("current-time", exe->current_time() == now, "after ", op, ", current_time() is ", show(exe->current_time()), " instead of ", show(now));
        PBT_REQUIRE("running", !exe->is_running(), "is_running() is true after ", op);
    };

    auto addSlave = [&] {
        gen_options o;
        o.maxVars = 8;
        auto d = gen_slave(c, pbt::cat("s", names.size()), duration(1000), o);
        d->md.uuid = pbt::cat("uuid-", names.size());
        const auto hint = duration(c.weighted({40, 60}) == 0 ? 0 : c.range(0, 1'000'000'000'000LL));
        const auto name = pbt::cat("sim ", c.draw(1000), "-", names.size());
        auto s = std::make_shared<rec_slave>(d.get());
        defs.push_back(d);
        slaves.push_back(s);
        names.push_back(name);
        const auto i = exe->add_slave(s, name, hint);
        PBT_REQUIRE("index-reused", i >= 0 && !expected.count("dummy"), "negative index");
        PBT_REQUIRE("simulator-index", i == static_cast<int>(names.size()) - 1, "the simulator added as number ", names.size() - 1, " got the index ", i);
        c.note(pbt::cat("add_slave ", name, " hint ", hint.count()));
        expected["A"].push_back(pbt::cat("add_simulator ", i, " ", name, " ", d->md.uuid, " hint=", hint.count()));
        for (std::size_t k = 0; k < observers.size(); ++k) expected[pbt::cat("O", k)].push_back(pbt::cat("added ", i, " ", name, " ", d->md.uuid, " at ", show(now)));
        for (std::size_t k = 0; k < manipulators.size(); ++k) expected[pbt::cat("M", k)].push_back(pbt::cat("added ", i, " ", name, " ", d->md.uuid, " at ", show(now)));
        PBT_REQUIRE("model-description", exe->get_model_description(i).uuid == d->md.uuid, "get_model_description() of simulator ", i, " is another's");
        settle("add_slave");
    };
    auto addFunction = [&] {
        gen_options o;
        auto d = gen_function(c, o);
        auto f = make_function(*d);
        funDefs.push_back(d);
        const auto i = exe->add_function(f);
        c.note(pbt::cat("add_function ", d->text()));
        PBT_REQUIRE("function-index", i == static_cast<int>(funDefs.size()) - 1, "the function added as number ", funDefs.size() - 1, " got the index ", i);
        expected["A"].push_back(pbt::cat("add_function ", i));
        settle("add_function");
        PBT_REQUIRE("function-pointer", algo->funs.at(i) == f.get(), "the algorithm got a pointer to another function");
    };
    auto addObserver = [&] {
        const int n = static_cast<int>(observers.size());
        auto o = std::make_shared<obs>(st, n);
        observers.push_back(o);
        exe->add_observer(o);
        c.note(pbt::cat("add_observer ", n));
        auto& e = expected[pbt::cat("O", n)];
        for (std::size_t i = 0; i < names.size(); ++i) e.push_back(pbt::cat("added ", i, " ", names[i], " ", defs[i]->md.uuid, " at ", show(now)));
        if (initialized) e.push_back(pbt::cat("initialized ", steps, " at ", show(now)));
        settle("add_observer");
    };
    auto addManipulator = [&] {
        const int n = static_cast<int>(manipulators.size());
        auto o = std::make_shared<man>(st, n);
        manipulators.push_back(o);
        exe->add_manipulator(o);
        c.note(pbt::cat("add_manipulator ", n));
        auto& e = expected[pbt::cat("M", n)];
        for (std::size_t i = 0; i < names.size(); ++i) e.push_back(pbt::cat("added ", i, " ", names[i], " ", defs[i]->md.uuid, " at ", show(now)));
        settle("add_manipulator");
    };

    // Chooses any variable of any simulator, or any function variable, valid or not.
    auto varOf = [&](std::initializer_list<variable_causality> wanted) -> std::optional<cosim::variable_id> {
        if (names.empty()) return std::nullopt;
        const int s = c.irange(0, static_cast<int>(names.size()) - 1);
        const auto vs = defs[s]->vars(wanted);
        if (vs.empty()) return std::nullopt;
        const auto& v = defs[s]->var(c.pick(vs));
        return cosim::variable_id{s, v.type, v.reference};
    };
    auto ioOf = [&](bool input) -> std::optional<std::pair<cosim::function_io_id, fun_io>> {
        if (funDefs.empty()) return std::nullopt;
        const int f = c.irange(0, static_cast<int>(funDefs.size()) - 1);
        std::vector<fun_io> l;
        for (auto& io : funDefs[f]->ios())
            if (io.input == input) l.push_back(io);
        if (l.empty()) return std::nullopt;
        const auto io = c.pick(l);
        return std::pair(cosim::function_io_id{f, io.type, io.ref.ref()}, io);
    };
    auto connect = [&] {
        const int kind = c.weighted({60, 20, 20});
        std::string text, input;
        bool typesAgree = false;
        std::function<void()> call;
        bool ss = false;
        std::string srcText, tgtText;
        const auto outs = {variable_causality::output, variable_causality::calculated_parameter};
        if (kind == 0) {
            auto o = varOf(outs);
            auto i = varOf({variable_causality::input});
            if (!o || !i) return;
            typesAgree = o->type == i->type && o->type != variable_type::enumeration;
            srcText = ::show(*o);
            tgtText = ::show(*i);
            ss = true;
            call = [=, &exe] { exe->connect_variables(*o, *i); };
        } else if (kind == 1) {
            auto o = varOf(outs);
            auto i = ioOf(true);
            if (!o || !i) return;
            typesAgree = o->type == i->first.type && o->type != variable_type::enumeration;
            srcText = ::show(*o);
            tgtText = ::show(i->first);
            call = [=, &exe] { exe->connect_variables(*o, i->first); };
        } else {
            auto o = ioOf(false);
            auto i = varOf({variable_causality::input});
            if (!o || !i) return;
            typesAgree = i->type == o->first.type && i->type != variable_type::enumeration;
            srcText = ::show(o->first);
            tgtText = ::show(*i);
            call = [=, &exe] { exe->connect_variables(o->first, *i); };
        }
        const bool free = !usedInputs.count(tgtText);
        const bool valid = typesAgree && free;
        const bool algoRefuses = valid && c.chance(10);
        algo->refuse = algoRefuses;
        c.note(pbt::cat("connect ", srcText, " -> ", tgtText, valid ? "" : " (invalid)", algoRefuses ? " (refused by the algorithm)" : ""));
        bool threw = false, wasBoom = false;
        try {
            call();
        } catch (const boom&) {
            threw = wasBoom = true;
        } catch (const std::exception&) {
            threw = true;
        }
        PBT_REQUIRE("connect-accepted", threw == (!valid || algoRefuses), "the connection ", srcText, " -> ", tgtText, threw ? " was refused" : " was accepted");
        if (algoRefuses) {
            PBT_REQUIRE("connect-error", wasBoom, "the algorithm's refusal of a connection surfaced as another error");
            ++refusedConnections;
            c.label("connection refused by the algorithm");
        }
        if (!threw) {
            usedInputs.insert(tgtText);
            ++connections;
            const auto t = pbt::cat("connect ", srcText, " -> ", tgtText);
            expected["A"].push_back(t);
            if (ss)
                for (std::size_t k = 0; k < observers.size(); ++k) expected[pbt::cat("O", k)].push_back(pbt::cat("connected ", srcText, " -> ", tgtText, " at ", show(now)));
        }
        settle("connect_variables");
    };

    // Steps
    duration maxStep = duration(c.one_of<std::int64_t>({1, 7, 1000, 1'000'000, 100'000'000'000}));
    auto planStep = [&]() -> step_plan {
        step_plan p;
        p.size = duration(c.range(1, maxStep.count()));
        for (std::size_t i = 0; i < names.size(); ++i)
            if (c.chance(50)) p.finished.insert(static_cast<int>(i));
        return p;
    };
    // What happens in one step; returns false if it fails.
    auto expectInitialize = [&] {
        if (initialized) return;
        expected["A"].push_back("initialize");
        for (std::size_t k = 0; k < observers.size(); ++k) expected[pbt::cat("O", k)].push_back(pbt::cat("initialized ", steps, " at ", show(now)));
        initialized = true;
    };
    auto expectStep = [&](const step_plan& p) {
        expectInitialize();
        for (std::size_t k = 0; k < manipulators.size(); ++k) expected[pbt::cat("M", k)].push_back(pbt::cat("commencing ", show(now)));
        expected["A"].push_back(pbt::cat("do_step ", show(now)));
        if (p.fail) {
            failed = true;
            return;
        }
        now += p.size;
        ++steps;
        for (std::size_t k = 0; k < observers.size(); ++k) {
            for (int i : p.finished) expected[pbt::cat("O", k)].push_back(pbt::cat("simulator ", i, " step ", steps, " ", p.size.count(), " at ", show(now)));
            expected[pbt::cat("O", k)].push_back(pbt::cat("step ", steps, " ", p.size.count(), " at ", show(now)));
        }
    };
    auto refused = [&](const std::string& op, const std::function<void()>& f) {
        try {
            f();
            pbt::fail("continued-after-failure", op + " went on after the algorithm had failed");
        } catch (const cosim::error& e) {
            PBT_REQUIRE("refusal-code", e.code() == make_error_code(cosim::errc::simulation_error), op, " after a failure gave the error code ", e.code().message());
        }
        settle(op + " after a failure");
    };

    const int initialSlaves = c.irange(0, 3);
    settle("construction");
    if (c.chance(50)) addObserver();
    if (c.chance(50)) addManipulator();
    for (int i = 0; i < initialSlaves; ++i) addSlave();

    int simulated = 0;
    c.repeat(2, 20, 6, [&](int) {
        if (now > at(8'000'000'000'000'000'000LL)) return;
        switch (c.weighted({8, 5, 6, 6, 25, 20, 20, 4, 3, 3})) {
            case 0:
                if (!failed) addSlave();
                break;
            case 1:
                if (!failed) addFunction();
                break;
            case 2: addObserver(); break;
            case 3: addManipulator(); break;
            case 4:
                if (!failed) c.repeat(1, 6, 3, [&](int) { connect(); });
                break;
            case 5: {
                if (failed) {
                    refused("step()", [&] { exe->step(); });
                    break;
                }
                const auto p = planStep();
                st->nextStep = [&] { return p; };
                c.note(pbt::cat("step() of ", p.size.count()));
                expectStep(p);
                const auto d = exe->step();
                PBT_REQUIRE("step-result", d == p.size, "step() returned ", d.count(), " ns although the algorithm stepped ", p.size.count());
                ++simulated;
                settle("step()");
                break;
            }
            case 6: {
                const auto target = now + duration(c.range(1, 8 * maxStep.count()));
                const bool async = c.chance(30);
                auto call = [&]() -> bool { return async ? exe->simulate_until_async(target).get() : exe->simulate_until(target); };
                if (failed) {
                    refused("simulate_until()", [&] { call(); });
                    break;
                }
                // The number of steps is decided beforehand by drawing them until the target is reached.
                std::vector<step_plan> plans;
                auto t = now;
                bool stopped = false;
                int unsure = -1; // a step after which it may or may not go on
                const bool stops = c.chance(20);
                while (true) {
                    auto p = planStep();
                    if ((stops && c.chance(25)) || plans.size() >= 40) p.stop = stopped = true;
                    t += p.size;
                    plans.push_back(p);
                    if (stopped) break;
                    const auto left = (target - t).count();
                    const auto hundredth = static_cast<double>(p.size.count()) / 100;
                    if (left <= 0) break;
                    if (static_cast<double>(left) < hundredth * 0.999) break;
                    if (static_cast<double>(left) < hundredth * 1.001) {
                        unsure = 1;
                        break;
                    }
                }
                if (unsure > 0) break;
                c.note(pbt::cat(async ? "simulate_until_async" : "simulate_until", " ", (target - now).count(), " ns: ", plans.size(), " steps", stopped ? ", stopped" : ""));
                std::size_t n = 0;
                bool tooMany = false;
                st->nextStep = [&]() -> step_plan {
                    if (n >= plans.size()) {
                        tooMany = true;
                        throw boom("too many steps");
                    }
                    if (!exe->is_running() ) report("running-in-step", "is_running() is false within simulate_until()");
                    return plans[n++];
                };
                bool res = false;
                try {
                    res = call();
                } catch (const boom&) {
                    if (!tooMany) throw;
                    pbt::fail("simulate-until-overrun", pbt::cat("simulate_until() takes a step beyond its target, after ", plans.size(), " steps"));
                }
                PBT_REQUIRE("simulate-until-underrun", n == plans.size(), "simulate_until() took ", n, " steps instead of ", plans.size());
                PBT_REQUIRE("simulate-until-result", res == !stopped, "simulate_until() returned ", res);
                for (auto& p : plans) expectStep(p);
                ++simulated;
                if (plans.size() > 1) c.label("several steps in one call");
                settle("simulate_until()");
                break;
            }
            case 7: { // failing step
                if (failed) break;
                auto p = planStep();
                p.fail = 1;
                st->nextStep = [&] { return p; };
                const bool until = c.chance(50);
                const bool async = c.chance(50);
                c.note(pbt::cat("failing step in ", until ? "simulate_until()" : "step()"));
                bool threw = false;
                try {
                    if (!until) exe->step();
                    else if (async) exe->simulate_until_async(std::nullopt).get();
                    else exe->simulate_until(std::nullopt);
                } catch (const boom& e) {
                    threw = std::string(e.what()) == "failing step";
                }
                PBT_REQUIRE("failure-lost", threw, "an exception thrown by the algorithm's do_step() did not reach the caller");
                expectStep(p);
                ++throwing;
                c.label("failing step");
                settle("a failing step");
                break;
            }
            case 8: { // failing initialisation
                if (failed || initialized) break;
                st->onInitialize = [] { throw boom("failing initialisation"); };
                c.note("failing initialisation");
                bool threw = false;
                st->nextStep = []() -> step_plan { throw boom("stepped although not initialised"); };
                try {
                    if (c.chance(50)) exe->step();
                    else exe->simulate_until(std::nullopt);
                } catch (const boom& e) {
                    threw = std::string(e.what()) == "failing initialisation";
                }
                PBT_REQUIRE("failure-lost", threw, "an exception thrown by the algorithm's initialize() did not reach the caller");
                expected["A"].push_back("initialize");
                failed = true;
                ++throwing;
                c.label("failing initialisation");
                settle("a failing initialisation");
                break;
            }
            case 9: { // failing manipulator: nothing is stepped
                if (failed || manipulators.empty()) break;
                const int k = c.irange(0, static_cast<int>(manipulators.size()) - 1);
                manipulators[k]->fail = true;
                c.note(pbt::cat("manipulator ", k, " fails"));
                st->nextStep = []() -> step_plan { throw boom("stepped"); };
                expectInitialize();
                bool threw = false;
                try {
                    exe->step();
                } catch (const boom& e) {
                    threw = std::string(e.what()) == "failing manipulator";
                }
                PBT_REQUIRE("failure-lost", threw, "an exception thrown by a manipulator did not reach the caller");
                // How many of the other manipulators were told is not promised.
                for (auto& e : st->log)
                    if (e.who[0] == 'M') {
                        PBT_REQUIRE("manipulator-told", e.what == pbt::cat("commencing ", show(now)), e.who, " was told ", e.what);
                        expected[e.who].push_back(e.what);
                    }
                c.label("failing manipulator");
                settle("a step with a failing manipulator");
                break;
            }
        }
        // Executions can be moved.
        if (c.chance(5)) {
            c.note("the execution is moved");
            auto e2 = std::make_unique<cosim::execution>(std::move(*exe));
            exe = std::move(e2);
            st->exe = exe.get();
            settle("moving");
        }
    });
    st->exe = nullptr;
    exe.reset();
    PBT_REQUIRE("algorithm-lifetime", alive.expired(), "the algorithm survives its execution");
    for (auto& e : st->log) pbt::fail("after-the-end", pbt::cat(e.who, " was told ", e.what, " when the execution was destroyed"));
    if (simulated >= 1 && names.size() >= 1) c.nontrivial();
    if (connections) c.label("connections");
    if (throwing) c.label("failures");
    if (maxStep > duration(1) && simulated > 1) c.label("varying step sizes");
}

} // namespace

int main(int argc, char** argv)
{
    pbt::spec s;
    s.id = "C37";
    s.rule = "at least one simulator and one successful step";
    s.quick_cases = 40000;
    s.thorough_cases = 2000000;
    s.setup = setup_process;
    s.run = run;
    return pbt::main(argc, argv, s);
}
