#include "sim.hpp"

using namespace sim;

namespace
{
value read_one(cosim::observable* o, const cosim::variable_description& v)
{
    switch (v.type) {
        case variable_type::real: return o->get_real(v.reference);
        case variable_type::integer: return o->get_integer(v.reference);
        case variable_type::boolean: return o->get_boolean(v.reference);
        default: return std::string(o->get_string(v.reference));
    }
}

/// An observer with some variables exposed in each simulator.
class watcher : public cosim::observer
{
public:
    struct item
    {
        note n;
        std::map<std::pair<int, int>, value> values;
    };
    std::vector<item> log;
    std::map<int, cosim::observable*> observables;
    std::map<int, std::set<int>> exposed;
    std::uint64_t salt = 0;
    int percent = 50;

    void expose(int sim, int var)
    {
        const auto v = observables.at(sim)->model_description().variables.at(var);
        observables.at(sim)->expose_for_getting(v.type, v.reference);
        exposed[sim].insert(var);
    }
    void read(item& i, int sim)
    {
        auto md = observables.at(sim)->model_description();
        for (int v : exposed[sim]) i.values[{sim, v}] = read_one(observables.at(sim), md.variables[v]);
    }

    void simulator_added(cosim::simulator_index i, cosim::observable* o, time_point t) override
    {
        item x;
        x.n.kind = note::added;
        x.n.sim = i;
        x.n.name = o->name();
        x.n.t = t;
        observables[i] = o;
        const auto md = o->model_description();
        for (std::size_t v = 0; v < md.variables.size(); ++v) {
            if (static_cast<int>(mix(salt, std::uint64_t(i * 100 + v)) % 100) < percent) expose(i, static_cast<int>(v));
        }
        log.push_back(x);
    }
    void simulator_removed(cosim::simulator_index i, time_point) override { report("unexpected-removed", pbt::cat("simulator ", i, " reported removed")); }
    void variable_disconnected(cosim::variable_id, time_point) override { report("unexpected-disconnected", "a variable was reported disconnected"); }
    void variables_connected(cosim::variable_id a, cosim::variable_id b, time_point t) override
    {
        item x;
        x.n.kind = note::connected;
        x.n.a = a;
        x.n.b = b;
        x.n.t = t;
        log.push_back(x);
    }
    void simulation_initialized(cosim::step_number k, time_point t) override
    {
        item x;
        x.n.kind = note::initialized;
        x.n.stepNumber = k;
        x.n.t = t;
        for (auto& [i, o] : observables) read(x, i);
        log.push_back(x);
    }
    void step_complete(cosim::step_number k, duration dt, time_point t) override
    {
        item x;
        x.n.kind = note::step;
        x.n.stepNumber = k;
        x.n.dt = dt;
        x.n.t = t;
        log.push_back(x);
    }
    void simulator_step_complete(cosim::simulator_index i, cosim::step_number k, duration dt, time_point t) override
    {
        item x;
        x.n.kind = note::sim_step;
        x.n.sim = i;
        x.n.stepNumber = k;
        x.n.dt = dt;
        x.n.t = t;
        read(x, i);
        log.push_back(x);
    }
};

void run(pbt::test_case& c)
{
    clear_reports();
    gen_options o;
    o.maxSlaves = 4;
    o.maxFunctions = 1;
    o.maxFactor = 4;
    o.initialValues = false;
    o.threadCounts = {0, 0, 1, 3};
    auto s = gen_system(c, o);
    c.note(s.text());
    auto algo = std::make_shared<cosim::fixed_step_algorithm>(s.base, s.threads);
    auto exe = std::make_unique<cosim::execution>(s.start, algo);
    running r;
    r.algo = algo;

    struct expectation
    {
        std::shared_ptr<watcher> w;
        std::size_t pos = 0; // in the log
        long since = -1; // added after that many steps
    };
    std::vector<expectation> obs;
    model m(s);
    long n = 0;
    std::size_t added = 0;
    bool initialized = false;

    auto who = [&](const expectation& e) { return pbt::cat("observer ", &e - obs.data()); };
    auto next = [&](expectation& e, const char* what) -> watcher::item& {
        PBT_REQUIRE("missing", e.pos < e.w->log.size(), who(e), ": ", what, " expected, but no more notifications");
        return e.w->log[e.pos++];
    };
    auto expect_added = [&](expectation& e, int i, const watcher::item& x) {
        PBT_REQUIRE("added", x.n.kind == note::added, who(e), ": expected simulator_added, got ", show(x.n));
        PBT_REQUIRE("added", x.n.name == s.slaves[i]->name, who(e), ": wrong name in ", show(x.n));
        PBT_REQUIRE("added-time", x.n.t == s.start + s.base * n, who(e), ": wrong time in ", show(x.n));
        const auto md = e.w->observables.at(i)->model_description();
        const auto& want = s.slaves[i]->md;
        bool same = md.name == want.name && md.uuid == want.uuid && md.version == want.version && md.author == want.author && md.description == want.description &&
            md.variables.size() == want.variables.size();
        for (std::size_t v = 0; same && v < want.variables.size(); ++v) {
            const auto &a = md.variables[v], &b = want.variables[v];
            same = a.name == b.name && a.reference == b.reference && a.type == b.type && a.causality == b.causality && a.variability == b.variability && a.start == b.start;
        }
        PBT_REQUIRE("description", same, who(e), ": simulator ", i, " has another model description");
    };
    auto expect_values = [&](expectation& e, const watcher::item& x, bool alignedOnly) {
        for (auto& [k, v] : x.values) {
            if (alignedOnly && m.steps() % m.factor(k.first) != 0) continue;
            const auto want = m.read(k.first, k.second);
            PBT_REQUIRE("value", v == want, who(e), ": ", s.slaves[k.first]->name, " variable [", k.second, "] is ", show(v), ", expected ", show(want), " at ", show(x.n));
        }
    };
    auto expect_initialized = [&](expectation& e, bool late) {
        auto& x = next(e, "simulation_initialized");
        PBT_REQUIRE("initialized", x.n.kind == note::initialized && x.n.stepNumber == n && x.n.t == s.start + s.base * n, who(e), ": expected simulation_initialized at step ", n, ", got ", show(x.n));
        expect_values(e, x, late);
    };
    auto expect_step = [&](expectation& e) {
        const auto fin = m.finished();
        std::set<int> left(fin.begin(), fin.end());
        const auto t = s.start + s.base * n;
        while (!left.empty()) {
            auto& x = next(e, "simulator_step_complete");
            PBT_REQUIRE("sim-step", x.n.kind == note::sim_step, who(e), ": expected ", left.size(), " more simulator_step_complete in step ", n, ", got ", show(x.n));
            PBT_REQUIRE("sim-step", left.erase(x.n.sim) == 1, who(e), ": unexpected or repeated ", show(x.n));
            PBT_REQUIRE("sim-step", x.n.stepNumber == n && x.n.dt == s.base && x.n.t == t, who(e), ": step ", n, " of ", show(s.base), " to ", show(t), " reported as ", show(x.n));
            expect_values(e, x, false);
        }
        auto& x = next(e, "step_complete");
        PBT_REQUIRE("step", x.n.kind == note::step && x.n.stepNumber == n && x.n.dt == s.base && x.n.t == t, who(e), ": step ", n, " of ", show(s.base), " to ", show(t), " reported as ", show(x.n));
    };
    auto finish = [&] {
        check_reports();
        for (auto& e : obs) PBT_REQUIRE("surplus", e.pos == e.w->log.size(), who(e), ": unexpected ", show(e.w->log[e.pos].n));
    };
    auto add_observer = [&] {
        expectation e;
        e.w = std::make_shared<watcher>();
        e.w->salt = c.draw(10000);
        e.w->percent = c.one_of<int>({0, 30, 70, 100});
        e.since = n;
        c.note(pbt::cat("add observer ", obs.size(), " after ", n, " steps, exposing ", e.w->percent, " %"));
        if (initialized) c.label("observer added during the simulation");
        exe->add_observer(e.w);
        obs.push_back(e);
        auto& b = obs.back();
        std::set<int> left;
        for (std::size_t i = 0; i < added; ++i) left.insert(static_cast<int>(i));
        while (!left.empty()) {
            auto& x = next(b, "simulator_added");
            PBT_REQUIRE("added", x.n.kind == note::added && left.erase(x.n.sim) == 1, who(b), ": unexpected ", show(x.n));
            expect_added(b, x.n.sim, x);
        }
        if (initialized) expect_initialized(b, true);
        finish();
    };

    // Assembly in some order
    for (auto& f : s.funs) {
        r.funs.push_back(make_function(*f));
        exe->add_function(r.funs.back());
    }
    for (std::size_t i = 0; i < s.slaves.size(); ++i) {
        if (c.chance(25)) add_observer();
        r.slaves.push_back(std::make_shared<rec_slave>(s.slaves[i].get()));
        exe->add_slave(r.slaves.back(), s.slaves[i]->name, s.slaves[i]->hint);
        if (s.slaves[i]->explicitFactor) algo->set_stepsize_decimation_factor(static_cast<int>(i), s.slaves[i]->explicitFactor);
        ++added;
        for (auto& e : obs) {
            auto& x = next(e, "simulator_added");
            PBT_REQUIRE("added", x.n.sim == static_cast<int>(i), who(e), ": expected simulator ", i, ", got ", show(x.n));
            expect_added(e, static_cast<int>(i), x);
        }
        finish();
    }
    std::vector<ss_conn> later;
    m.ss.clear();
    auto connect = [&](const ss_conn& x) {
        c.note(pbt::cat("connect s", x.src, "[", x.srcVar, "] -> s", x.tgt, "[", x.tgtVar, "] after ", n, " steps"));
        exe->connect_variables(s.vid(x.src, x.srcVar), s.vid(x.tgt, x.tgtVar));
        m.ss.push_back(x);
        for (auto& e : obs) {
            auto& y = next(e, "variables_connected");
            PBT_REQUIRE("connected", y.n.kind == note::connected && y.n.a == s.vid(x.src, x.srcVar) && y.n.b == s.vid(x.tgt, x.tgtVar) && y.n.t == s.start + s.base * n,
                who(e), ": wrong notification of a connection: ", show(y.n));
        }
        finish();
    };
    for (auto& x : s.ss) {
        if (c.chance(15)) add_observer();
        if (c.chance(15)) {
            later.push_back(x);
        } else {
            connect(x);
        }
    }
    for (auto& x : s.sf) exe->connect_variables(s.vid(x.src, x.srcVar), s.fid(x.fun, x.io));
    for (auto& x : s.fs) exe->connect_variables(s.fid(x.fun, x.io), s.vid(x.tgt, x.tgtVar));
    finish();
    if (obs.empty()) add_observer();
    // Simulation
    c.repeat(1, 16, 7, [&](int) {
        switch (c.weighted({45, 15, 10, 20, 10})) {
            case 0:
            case 1: {
                const long k = c.irange(1, 4);
                c.note(pbt::cat(k, " steps"));
                if (c.chance(50)) {
                    for (long j = 0; j < k; ++j) exe->step();
                } else {
                    exe->simulate_until(s.start + s.base * (n + k));
                }
                // Each observer's log is checked step by step, together with the model.
                for (long j = 0; j < k; ++j) {
                    if (!initialized) {
                        m.initialize();
                        for (auto& e : obs) expect_initialized(e, false);
                        initialized = true;
                    }
                    m.step();
                    ++n;
                    for (auto& e : obs) expect_step(e);
                }
                finish();
                break;
            }
            case 2:
                if (obs.size() < 5) add_observer();
                break;
            case 3: { // expose another variable and read it at once
                auto& e = obs[c.draw(obs.size() - 1)];
                const int i = c.irange(0, static_cast<int>(s.slaves.size()) - 1);
                const int v = c.irange(0, s.slaves[i]->var_count() - 1);
                if (e.w->exposed[i].count(v)) break;
                c.note(pbt::cat(who(e), " exposes s", i, "[", v, "] after ", n, " steps"));
                e.w->expose(i, v);
                if (initialized && n % m.factor(i) == 0) {
                    const auto x = read_one(e.w->observables.at(i), s.slaves[i]->var(v));
                    PBT_REQUIRE("exposed-value", x == m.read(i, v), "s", i, "[", v, "] is ", show(x), " when it has just been exposed, expected ", show(m.read(i, v)));
                    c.label("exposed during the simulation");
                }
                break;
            }
            default:
                if (!later.empty()) {
                    // not if it would make an algebraic loop before initialisation
                    connect(later.back());
                    later.pop_back();
                }
        }
    });
    compare_steps(s, [&] { running q; q.slaves = r.slaves; return q; }(), m, "behaviour");
    if (n >= 2 && obs.size() >= 2) c.nontrivial();
}
} // namespace

int main(int argc, char** argv)
{
    pbt::spec s;
    s.id = "C10";
    s.rule = "a generated system assembled in a random order, with observers (each exposing a random set of variables) added before, between and during steps, connections made and variables exposed at random times, and every notification and value compared with the model; non-trivial: at least two observers and two base steps";
    s.quick_cases = 60000;
    s.thorough_cases = 1500000;
    s.setup = setup_process;
    s.run = run;
    return pbt::main(argc, argv, s);
}
