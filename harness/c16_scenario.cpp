#include "manip.hpp"

#include <cosim/manipulator/scenario_manager.hpp>

#include <algorithm>

using namespace manip;

namespace
{
struct ev
{
    time_point time;
    std::pair<int, int> var;
    mod m;
    bool done = false;
};

void run(pbt::test_case& c)
{
    clear_reports();
    gen_options o;
    o.maxSlaves = 3;
    o.maxFunctions = 1;
    o.maxFactor = 3;
    o.maxVars = 8;
    o.initialValues = true;
    o.threadCounts = {0, 0, 2};
    auto s = gen_system(c, o);
    c.note(s.text());
    const auto vars = modifiable_vars(s);
    auto r = build(s, true);
    model m(s);
    state st(s, m);
    auto sm = std::make_shared<cosim::scenario_manager>();
    auto ob = std::make_shared<rec_observer>();
    r.exe->add_manipulator(sm);
    const bool observed = c.chance(60);
    if (observed) r.exe->add_observer(ob);

    // model of the scenario manager
    std::vector<ev> events; // in chronological order
    std::optional<time_point> end;
    time_point loadedAt;
    bool runningScenario = false;
    std::set<std::pair<int, int>> touched;
    bool init = false;
    long n = 0;
    int executed = 0, loads = 0;

    auto cleanup = [&] {
        for (const auto& v : touched) st.apply(v, {nullptr, "released"});
        touched.clear();
    };
    auto step_commencing = [&](time_point now) {
        if (!runningScenario) return;
        const auto rel = now - loadedAt.time_since_epoch();
        const bool over = end ? rel >= *end : std::all_of(events.begin(), events.end(), [](auto& e) { return e.done; });
        if (over) {
            runningScenario = false;
            c.label(std::all_of(events.begin(), events.end(), [](auto& e) { return e.done; }) ? "ended after all events" : "ended before all events");
            cleanup();
            return;
        }
        int due = 0;
        for (auto& e : events) {
            if (e.done || rel < e.time) continue;
            e.done = true;
            ++due;
            ++executed;
            st.apply(e.var, e.m);
            touched.insert(e.var);
        }
        if (due > 1) c.label("several events due in one step");
    };
    auto load = [&] {
        if (vars.empty()) return;
        ++loads;
        if (runningScenario) c.label("loaded while another was running");
        cosim::scenario::scenario sc;
        std::vector<ev> evs;
        // a small pool of variables, so that events meet
        std::vector<std::pair<int, int>> pool;
        for (int k = c.irange(1, 3); k > 0; --k) pool.push_back(c.pick(vars));
        auto gen_time = [&] {
            const auto b = s.base.count();
            auto t = b * c.range(-2, 12);
            if (c.chance(30)) t += c.range(-std::min<std::int64_t>(b, 5), std::min<std::int64_t>(b, 5));
            return time_point(duration(t));
        };
        c.note("load scenario:");
        c.repeat(0, 8, 4, [&](int) {
            ev e;
            e.time = !evs.empty() && c.chance(30) ? c.pick(evs).time : gen_time();
            e.var = c.pick(pool);
            const auto id = s.vid(e.var.first, e.var.second);
            e.m = gen_mod(c, id.type, 20);
            c.note(pbt::cat("  at ", show(e.time), ": ", s.slaves[e.var.first]->name, "[", e.var.second, "] ", e.m.text));
            evs.push_back(e);
            sc.events.push_back({e.time, {e.var.first, id.reference, scenario_modifier(e.m, id.type), is_input(s.slaves[e.var.first]->var(e.var.second).causality)}});
        });
        if (c.chance(50)) {
            sc.end = gen_time();
            c.note(pbt::cat("  end at ", show(*sc.end)));
        }
        // usually from now on, but possibly relative to some other time
        auto now = s.start + s.base * n;
        if (c.chance(15)) now += s.base * c.range(-3, 3);
        sm->load_scenario(sc, now);
        cleanup();
        std::stable_sort(evs.begin(), evs.end(), [](auto& a, auto& b) { return a.time < b.time; });
        events = evs;
        end = sc.end;
        loadedAt = now;
        runningScenario = true;
    };
    if (c.chance(80)) load();
    c.repeat(1, 20, 9, [&](int) {
        switch (c.weighted({75, 15, 8})) {
            case 0: {
                const int k = c.irange(1, 4);
                c.note(pbt::cat(k, " steps"));
                for (int j = 0; j < k; ++j) {
                    if (!init) {
                        m.initialize();
                        init = true;
                    }
                    r.exe->step();
                    step_commencing(s.start + s.base * n);
                    m.step();
                    ++n;
                    if (observed) check_observed(s, *ob, m);
                    PBT_REQUIRE("running", sm->is_scenario_running() == runningScenario, "is_scenario_running() returned ", sm->is_scenario_running(), " after ", n, " steps");
                }
                check_reports();
                compare_steps(s, r, m, "step");
                break;
            }
            case 1: load(); break;
            default:
                c.note("abort");
                c.label("aborted");
                sm->abort_scenario();
                runningScenario = false;
                cleanup();
                events.clear();
        }
        PBT_REQUIRE("running", sm->is_scenario_running() == runningScenario, "is_scenario_running() returned ", sm->is_scenario_running(), " after ", n, " steps");
        check_modified(s, r, st);
    });
    if (executed >= 1 && n >= 2) c.nontrivial();
    if (loads > 1) c.label("several scenarios");
}
} // namespace

int main(int argc, char** argv)
{
    pbt::spec s;
    s.id = "C16";
    s.rule = "scenarios with generated events (times on, off, before and beyond the steps; simultaneous ones; few variables, so that events interact) and end times, loaded, replaced and aborted at random during the simulation of a generated system; compared with the model after every step; non-trivial: at least one event executed and two steps";
    s.quick_cases = 40000;
    s.thorough_cases = 1000000;
    s.setup = setup_process;
    s.run = run;
    return pbt::main(argc, argv, s);
}
