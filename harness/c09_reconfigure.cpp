#include "sim.hpp"

#include <cosim/exception.hpp>

using namespace sim;

namespace
{
void run(pbt::test_case& c)
{
    clear_reports();
    gen_options o;
    o.maxSlaves = 5;
    o.maxFunctions = 2;
    o.maxFactor = 4;
    o.initialValues = true;
    o.threadCounts = {0, 0, 1, 3};
    o.connectionPercent = 85;
    auto s = gen_system(c, o);
    c.note(s.text());
    auto r = build(s, true);
    auto obs = std::make_shared<rec_observer>();
    r.exe->add_observer(obs);
    model m(s);
    const int ns = static_cast<int>(s.slaves.size());
    std::vector<std::pair<long, int>> expectedDone; // (step, simulator)
    long n = 0;
    int edits = 0;
    auto sync = [&] {
        m.ss = s.ss;
        m.sf = s.sf;
        m.fs = s.fs;
    };
    auto step = [&](int k) {
        for (int i = 0; i < k; ++i) {
            r.exe->step();
            m.step();
            ++n;
            for (int f : m.finished()) expectedDone.emplace_back(n, f);
        }
        check_reports();
        compare_steps(s, r, m, "behaviour");
    };
    c.repeat(2, 20, 9, [&](int) {
        switch (c.weighted({40, 15, 10, 10, 8, 14, 5, 3})) {
            case 0: {
                const int k = c.irange(1, 5);
                c.note(pbt::cat("step ", k));
                step(k);
                break;
            }
            case 1: { // disconnect a simulator variable, connected or not
                const int i = c.irange(0, ns - 1);
                const auto vs = s.slaves[i]->vars({variable_causality::input});
                if (vs.empty()) break;
                const int v = vs[c.draw(vs.size() - 1)];
                c.note(pbt::cat("disconnect s", i, "[", v, "]"));
                const bool wasSim = [&] { for (auto& x : s.ss) if (x.tgt == i && x.tgtVar == v) return true; return false; }();
                const bool was = s.input_used(i, v);
                r.algo->disconnect_variable(s.vid(i, v));
                s.ss.erase(std::remove_if(s.ss.begin(), s.ss.end(), [&](auto& x) { return x.tgt == i && x.tgtVar == v; }), s.ss.end());
                s.fs.erase(std::remove_if(s.fs.begin(), s.fs.end(), [&](auto& x) { return x.tgt == i && x.tgtVar == v; }), s.fs.end());
                sync();
                if (was) ++edits;
                c.label(!was ? "disconnected an unconnected input" : wasSim ? "disconnected from a simulator" : "disconnected from a function");
                break;
            }
            case 2: { // disconnect a function variable
                if (s.funs.empty()) break;
                const int f = c.irange(0, static_cast<int>(s.funs.size()) - 1);
                const auto ios = s.funs[f]->ios();
                std::vector<fun_io> in;
                for (auto& io : ios) {
                    if (io.input) in.push_back(io);
                }
                if (in.empty()) break;
                const auto io = in[c.draw(in.size() - 1)];
                c.note(pbt::cat("disconnect f", f, "(", io.ref.group, ",", io.ref.groupInstance, ",", io.ref.io, ",", io.ref.ioInstance, ")"));
                if (s.io_used(f, io.ref)) {
                    ++edits;
                    c.label("disconnected a function input");
                }
                r.algo->disconnect_variable(s.fid(f, io));
                s.sf.erase(std::remove_if(s.sf.begin(), s.sf.end(), [&](auto& x) { return x.fun == f && !(x.io.ref < io.ref) && !(io.ref < x.io.ref); }), s.sf.end());
                sync();
                break;
            }
            case 3: { // remove a simulator
                const int i = c.irange(0, ns - 1);
                if (!m.alive[i]) break;
                c.note(pbt::cat("remove s", i));
                r.algo->remove_simulator(i);
                s.ss.erase(std::remove_if(s.ss.begin(), s.ss.end(), [&](auto& x) { return x.src == i || x.tgt == i; }), s.ss.end());
                s.sf.erase(std::remove_if(s.sf.begin(), s.sf.end(), [&](auto& x) { return x.src == i; }), s.sf.end());
                s.fs.erase(std::remove_if(s.fs.begin(), s.fs.end(), [&](auto& x) { return x.tgt == i; }), s.fs.end());
                m.alive[i] = false;
                sync();
                ++edits;
                c.label(n == 0 ? "removed before the start" : "removed a simulator");
                break;
            }
            case 4: { // invalid decimation factors
                const int which = c.irange(0, 2);
                int i = which == 0 ? ns + c.irange(0, 2) : which == 1 ? -1 : c.irange(0, ns - 1);
                const int f = which == 2 && m.alive[i] ? c.irange(-2, 0) : c.irange(1, 3);
                c.note(pbt::cat("set factor of ", i, " to ", f, ", which is invalid"));
                bool threw = false;
                try {
                    r.algo->set_stepsize_decimation_factor(i, f);
                } catch (const std::exception&) {
                    threw = true;
                }
                PBT_REQUIRE("invalid-factor", threw, "no error for simulator ", i, " and factor ", f);
                break;
            }
            case 5: { // connect a free input
                std::vector<std::pair<int, int>> freeIn;
                for (int i = 0; i < ns; ++i) {
                    if (!m.alive[i]) continue;
                    for (int v : s.slaves[i]->vars({variable_causality::input})) {
                        if (!s.input_used(i, v)) freeIn.emplace_back(i, v);
                    }
                }
                if (freeIn.empty()) break;
                const auto [t, tv] = c.pick(freeIn);
                const auto type = s.slaves[t]->var(tv).type;
                std::vector<ss_conn> ss;
                std::vector<fs_conn> fs;
                for (int i = 0; i < ns; ++i) {
                    if (!m.alive[i]) continue;
                    for (int v : s.slaves[i]->vars({variable_causality::output, variable_causality::calculated_parameter})) {
                        if (s.slaves[i]->var(v).type == type) ss.push_back({i, v, t, tv});
                    }
                }
                for (int f = 0; f < static_cast<int>(s.funs.size()); ++f) {
                    for (auto& io : s.funs[f]->ios()) {
                        if (!io.input && io.type == type) fs.push_back({f, io, t, tv});
                    }
                }
                auto copy = s;
                if (!fs.empty() && (ss.empty() || c.chance(50))) {
                    copy.fs.push_back(c.pick(fs));
                    if (copy.has_algebraic_loop()) break;
                    c.note(pbt::cat("connect f", copy.fs.back().fun, " -> s", t, "[", tv, "]"));
                    r.algo->connect_variables(s.fid(copy.fs.back().fun, copy.fs.back().io), s.vid(t, tv));
                } else if (!ss.empty()) {
                    copy.ss.push_back(c.pick(ss));
                    if (copy.has_algebraic_loop()) break;
                    c.note(pbt::cat("connect s", copy.ss.back().src, "[", copy.ss.back().srcVar, "] -> s", t, "[", tv, "]"));
                    r.algo->connect_variables(s.vid(copy.ss.back().src, copy.ss.back().srcVar), s.vid(t, tv));
                } else {
                    break;
                }
                s.ss = copy.ss;
                s.fs = copy.fs;
                sync();
                ++edits;
                c.label("connected again");
                break;
            }
            case 6: { // connect a free function input
                std::vector<sf_conn> l;
                for (int f = 0; f < static_cast<int>(s.funs.size()); ++f) {
                    for (auto& io : s.funs[f]->ios()) {
                        if (!io.input || s.io_used(f, io.ref)) continue;
                        for (int i = 0; i < ns; ++i) {
                            if (!m.alive[i]) continue;
                            for (int v : s.slaves[i]->vars({variable_causality::output})) {
                                if (s.slaves[i]->var(v).type == io.type) l.push_back({i, v, f, io});
                            }
                        }
                    }
                }
                if (l.empty()) break;
                auto copy = s;
                copy.sf.push_back(c.pick(l));
                if (copy.has_algebraic_loop()) break;
                auto& x = copy.sf.back();
                c.note(pbt::cat("connect s", x.src, "[", x.srcVar, "] -> f", x.fun));
                r.algo->connect_variables(s.vid(x.src, x.srcVar), s.fid(x.fun, x.io));
                s.sf = copy.sf;
                sync();
                ++edits;
                c.label("connected again");
                break;
            }
            default: {
                // A variable that does not exist
                c.note("disconnect a variable that does not exist");
                r.algo->disconnect_variable(cosim::variable_id{ns + 1, variable_type::real, 12345});
                r.algo->disconnect_variable(cosim::function_io_id{99, variable_type::real, {0, 0, 0, 0}});
            }
        }
    });
    step(c.irange(1, 8));
    // Removed simulators do not complete steps.
    std::set<std::pair<long, int>> want(expectedDone.begin(), expectedDone.end()), got;
    for (auto& x : obs->log) {
        if (x.kind == note::sim_step) got.insert({static_cast<long>(x.stepNumber), x.sim});
    }
    PBT_REQUIRE("observer-steps", want == got, "observers were told of ", got.size(), " simulator steps, expected ", want.size());
    if (edits > 0) c.nontrivial();
}
} // namespace

int main(int argc, char** argv)
{
    pbt::spec s;
    s.id = "C09";
    s.rule = "a generated connected system and a sequence of steps, disconnections (of inputs connected to simulators or functions, or to nothing), removals, new connections and invalid requests at the algorithm level, compared with the model of the current system; non-trivial: at least one effective edit";
    s.quick_cases = 60000;
    s.thorough_cases = 1500000;
    s.setup = setup_process;
    s.run = run;
    return pbt::main(argc, argv, s);
}
