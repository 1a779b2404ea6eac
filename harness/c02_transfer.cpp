#include "sim.hpp"

using namespace sim;

static void run(pbt::test_case& c)
{
    clear_reports();
    gen_options o;
    o.maxSlaves = 6;
    o.maxVars = 10;
    o.maxFactor = 5;
    o.connectionPercent = 80;
    if (c.chance(30)) o.maxFunctions = 2;
    auto s = gen_system(c, o);
    // fan-out is common; sometimes connect everything to a few sources
    c.note(s.text());
    auto r = build(s, false);
    model m(s);
    m.ss.clear();
    // Some connections are only made in the middle of the simulation.
    std::vector<ss_conn> late;
    for (auto& x : s.ss) {
        if (c.chance(10)) {
            late.push_back(x);
        } else {
            r.exe->connect_variables(s.vid(x.src, x.srcVar), s.vid(x.tgt, x.tgtVar));
            m.ss.push_back(x);
        }
    }
    for (auto& x : s.sf) r.exe->connect_variables(s.vid(x.src, x.srcVar), s.fid(x.fun, x.io));
    for (auto& x : s.fs) r.exe->connect_variables(s.fid(x.fun, x.io), s.vid(x.tgt, x.tgtVar));
    if (!s.funs.empty()) c.label("with functions");
    int n = 0;
    auto one = [&] {
        r.exe->step();
        m.step();
        ++n;
        if (!late.empty() && c.chance(30)) {
            auto x = late.back();
            late.pop_back();
            c.note(pbt::cat("after ", n, " steps: connect s", x.src, "[", x.srcVar, "] -> s", x.tgt, "[", x.tgtVar, "]"));
            r.exe->connect_variables(s.vid(x.src, x.srcVar), s.vid(x.tgt, x.tgtVar));
            m.ss.push_back(x);
            c.label("connected during simulation");
        }
    };
    c.repeat(1, 30, 9, [&](int) { one(); });
    if (c.chance(1)) {
        const int k = 1 << c.irange(4, 11);
        for (int i = k + c.irange(0, k); i > 0; --i) one();
        if (n > 1000) c.label("more than 1000 steps");
    }
    c.note(pbt::cat(n, " steps"));
    check_reports();
    compare_steps(s, r, m, "input");
    // Variables which are not targets are never written.
    for (std::size_t i = 0; i < s.slaves.size(); ++i) {
        for (auto& e : r.slaves[i]->log()) {
            for (auto& [v, val] : e.sets) {
                PBT_REQUIRE("unconnected-written", s.input_used(static_cast<int>(i), v), s.slaves[i]->name, " variable [", v, "] was set to ", show(val), " although nothing is connected to it");
            }
        }
    }
    bool mixed = false, cycle = false, self = false;
    std::map<std::pair<int, int>, int> fan;
    std::set<variable_type> types;
    for (auto& x : m.ss) {
        if (m.factor(x.src) != m.factor(x.tgt)) mixed = true;
        if (x.src == x.tgt) self = true;
        for (auto& y : m.ss) cycle |= x.src == y.tgt && x.tgt == y.src && x.src != x.tgt;
        ++fan[{x.src, x.srcVar}];
        types.insert(s.slaves[x.tgt]->var(x.tgtVar).type);
        c.label(pbt::cat("type ", s.slaves[x.tgt]->var(x.tgtVar).type));
    }
    if (mixed) c.label("mixed factors");
    if (cycle) c.label("cycle");
    if (self) c.label("self-connection");
    for (auto& [k, v] : fan) {
        if (v > 1) c.label("fan-out");
    }
    if (!m.ss.empty() && n >= 2) c.nontrivial();
}

int main(int argc, char** argv)
{
    pbt::spec s;
    s.id = "C02";
    s.rule = "a generated system of recording slaves with random typed variables and connection graph (some made during simulation), stepped 1-30 times; compared with a reference interpreter; non-trivial: at least one connection and two steps";
    s.quick_cases = 60000;
    s.thorough_cases = 1500000;
    s.setup = setup_process;
    s.run = run;
    return pbt::main(argc, argv, s);
}
