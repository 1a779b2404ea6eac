#include "sim.hpp"

#include <cosim/exception.hpp>

using namespace sim;

static void set_initial(cosim::execution& e, int sim, cosim::value_reference ref, const value& v)
{
    switch (type_of(v)) {
        case variable_type::real: e.set_real_initial_value(sim, ref, std::get<double>(v)); break;
        case variable_type::integer: e.set_integer_initial_value(sim, ref, std::get<int>(v)); break;
        case variable_type::boolean: e.set_boolean_initial_value(sim, ref, std::get<bool>(v)); break;
        default: e.set_string_initial_value(sim, ref, std::get<std::string>(v)); break;
    }
}

static void run(pbt::test_case& c)
{
    clear_reports();
    gen_options o;
    o.maxSlaves = 7;
    o.maxFunctions = 2;
    o.maxVars = 8;
    o.maxFactor = 3;
    o.connectionPercent = 75;
    auto s = gen_system(c, o);
    // feedthrough chains are what initial iterations are for
    if (c.chance(50)) {
        for (auto& d : s.slaves) d->feedthrough = true;
        while (s.has_algebraic_loop()) {
            if (!s.ss.empty()) s.ss.pop_back();
            else if (!s.fs.empty()) s.fs.pop_back();
            else break;
        }
    }
    auto r = build(s, true);
    std::map<std::pair<int, int>, value> wanted;
    int refused = 0;
    c.repeat(0, 14, 4, [&](int) {
        const int i = static_cast<int>(c.draw(s.slaves.size() - 1));
        const auto& d = *s.slaves[i];
        if (c.chance(80)) {
            const auto vs = d.vars({variable_causality::input, variable_causality::parameter});
            if (vs.empty()) return;
            const int v = vs[c.draw(vs.size() - 1)];
            const auto x = gen_value(c, d.var(v).type);
            set_initial(*r.exe, i, d.var(v).reference, x);
            if (wanted.count({i, v})) c.label("set twice");
            wanted[{i, v}] = x;
            s.initial.push_back({i, v, x});
        } else {
            // something that does not exist
            const auto t = static_cast<variable_type>(c.draw(3));
            const auto ref = static_cast<cosim::value_reference>(c.draw(9));
            const int sim = c.chance(30) ? (c.chance(50) ? -1 : static_cast<int>(s.slaves.size()) + c.irange(0, 2)) : i;
            if (sim == i && d.find(t, ref) >= 0) return;
            ++refused;
            c.note(pbt::cat("refused: s", sim, " ", t, " ", ref));
            bool threw = false;
            try {
                set_initial(*r.exe, sim, ref, gen_value(c, t));
            } catch (const std::exception&) {
                threw = true;
            }
            PBT_REQUIRE("nonexistent-accepted", threw, "initial value accepted for simulator ", sim, ", ", t, " variable ", ref);
        }
    });
    c.note(s.text());
    model m(s);
    const int n = c.irange(1, 5);
    for (int k = 0; k < n; ++k) {
        r.exe->step();
        m.step();
    }
    check_reports();
    // Refused once the simulation has started.
    for (int k = c.irange(0, 2); k > 0; --k) {
        const int i = static_cast<int>(c.draw(s.slaves.size() - 1));
        const int v = static_cast<int>(c.draw(s.slaves[i]->var_count() - 1));
        bool threw = false;
        try {
            set_initial(*r.exe, i, s.slaves[i]->var(v).reference, gen_value(c, s.slaves[i]->var(v).type));
        } catch (const std::exception&) {
            threw = true;
        }
        PBT_REQUIRE("late-accepted", threw, "initial value accepted during the simulation");
        r.exe->step();
        m.step();
        check_reports();
    }

    for (int i = 0; i < static_cast<int>(s.slaves.size()); ++i) {
        const auto& d = *s.slaves[i];
        bool started = false;
        std::map<int, std::vector<value>> before; // values set before start
        const event* start = nullptr;
        for (auto& e : r.slaves[i]->log()) {
            if (e.kind == call::start) {
                started = true;
                start = &e;
            }
            if (e.kind == call::set && !started) {
                for (auto& [v, x] : e.sets) before[v].push_back(x);
            }
        }
        PBT_REQUIRE("not-started", start != nullptr, d.name);
        for (int v = 0; v < d.var_count(); ++v) {
            const auto it = wanted.find({i, v});
            const bool connected = s.input_used(i, v);
            if (it != wanted.end()) {
                PBT_REQUIRE("initial-value-lost", before.count(v) && before[v].front() == it->second, d.name, "[", v, "]: first value set before start is ",
                    before.count(v) ? show(before[v].front()) : "(none)", ", expected ", show(it->second));
                if (!connected) {
                    PBT_REQUIRE("initial-value-overwritten", start->snapshot[v] == it->second && before[v].size() == 1, d.name, "[", v, "] is ", show(start->snapshot[v]), " at start and was set ",
                        before[v].size(), " times");
                }
            } else if (!connected) {
                PBT_REQUIRE("unexpected-set", !before.count(v), d.name, "[", v, "] was set to ", show(before[v].front()));
            }
            // Whatever is connected is consistent.
            PBT_REQUIRE("value-at-start", start->snapshot[v] == m.atStart[i][v], d.name, "[", v, "] ", d.var(v).causality, " is ", show(start->snapshot[v]), " at start, expected ", show(m.atStart[i][v]));
        }
    }
    // Direct connections are consistent, independently of the model
    for (auto& x : s.ss) {
        auto at = [&](int i, int v) {
            for (auto& e : r.slaves[i]->log()) {
                if (e.kind == call::start) return e.snapshot[v];
            }
            return value();
        };
        PBT_REQUIRE("inconsistent-at-start", at(x.src, x.srcVar) == at(x.tgt, x.tgtVar), "s", x.src, "[", x.srcVar, "] = ", show(at(x.src, x.srcVar)), " but s", x.tgt, "[", x.tgtVar, "] = ", show(at(x.tgt, x.tgtVar)));
    }
    compare_steps(s, r, m, "step");
    // length of the longest feedthrough chain, roughly
    int chain = 0;
    for (auto& x : s.ss) chain += s.slaves[x.src]->feedthrough && s.slaves[x.tgt]->feedthrough && x.src != x.tgt;
    if (chain >= 2) c.label("feedthrough chain");
    if (refused) c.label("refused initial value");
    if (!wanted.empty()) c.label("initial values");
    if (!wanted.empty() || chain > 0) c.nontrivial();
}

int main(int argc, char** argv)
{
    pbt::spec s;
    s.id = "C04";
    s.rule = "a generated system with direct feedthrough during initialisation (no algebraic loops), valid and invalid initial values before start and attempts after it; non-trivial: some initial value or connected feedthrough slaves";
    s.quick_cases = 60000;
    s.thorough_cases = 1500000;
    s.setup = setup_process;
    s.run = run;
    return pbt::main(argc, argv, s);
}
