#include "sim.hpp"

using namespace sim;

static void check_log(const sysdef& s, const running& r, long n, bool begun, bool destroyed)
{
    for (std::size_t i = 0; i < s.slaves.size(); ++i) {
        const auto& d = *s.slaves[i];
        const auto& log = r.slaves[i]->log();
        if (!begun) {
            PBT_REQUIRE("call-before-simulation", log.empty(), d.name, " was called (", to_string(log[0].kind), ") before anything was simulated");
            continue;
        }
        const auto f = d.factor(s.base);
        PBT_REQUIRE("setup-first", !log.empty() && log[0].kind == call::setup, d.name, ": first call is not setup");
        PBT_REQUIRE("setup-time", log[0].t == s.start, d.name, ": setup with start time ", show(log[0].t), " instead of ", show(s.start));
        PBT_REQUIRE("setup-stop", !log[0].stop, d.name, ": setup with a stop time");
        int setups = 0, starts = 0, ends = 0;
        long steps = 0;
        for (auto& e : log) {
            PBT_REQUIRE("call-after-end", ends == 0, d.name, ": ", to_string(e.kind), " after end_simulation");
            switch (e.kind) {
                case call::setup: ++setups; break;
                case call::start:
                    PBT_REQUIRE("start-after-step", steps == 0, d.name, ": start_simulation after a step");
                    ++starts;
                    break;
                case call::step:
                    PBT_REQUIRE("step-before-start", starts == 1, d.name, ": do_step before start_simulation");
                    PBT_REQUIRE("step-size", e.dt == s.base * f, d.name, ": step ", steps, " has length ", show(e.dt), ", expected ", show(s.base * f));
                    PBT_REQUIRE("step-time", e.t == s.start + s.base * f * steps, d.name, ": step ", steps, " starts at ", show(e.t), ", expected ", show(s.start + s.base * f * steps));
                    ++steps;
                    break;
                case call::end: ++ends; break;
                default: break;
            }
        }
        PBT_REQUIRE("setup-count", setups == 1, d.name, ": setup called ", setups, " times");
        PBT_REQUIRE("start-count", starts == 1, d.name, ": start_simulation called ", starts, " times");
        // a step is taken in base steps 0, f, 2f, ...
        PBT_REQUIRE("step-count", steps == (n + f - 1) / f, d.name, ": ", steps, " steps taken in ", n, " base steps with factor ", f);
        PBT_REQUIRE("end-early", destroyed || ends == 0, d.name, ": end_simulation before the execution went away");
    }
}

static void run(pbt::test_case& c)
{
    clear_reports();
    gen_options o;
    o.maxSlaves = 6;
    o.maxFunctions = 2;
    o.maxVars = 4;
    o.initialValues = true;
    o.maxFactor = 9;
    auto s = gen_system(c, o);
    c.note(s.text());
    auto r = build(s);
    long n = 0;
    bool begun = false;
    std::set<std::int64_t> factors;
    for (auto& d : s.slaves) {
        factors.insert(d->factor(s.base));
        if (d->hint.count() > 0 && d->hint < s.base) c.label("hint below base step");
        if (d->hint.count() % s.base.count() != 0 && d->hint > s.base) c.label("hint not a multiple");
        if (d->explicitFactor) c.label("explicit factor");
    }
    check_log(s, r, 0, false, false);
    c.repeat(1, 12, 4, [&](int) {
        switch (c.weighted({50, 40, 10, 1})) {
            case 0: {
                const auto dt = r.exe->step();
                PBT_REQUIRE("base-step", dt == s.base, "step() returned ", show(dt));
                ++n;
                c.note("step");
                break;
            }
            case 1: {
                const long k = c.irange(1, 12);
                const auto target = s.start + s.base * (n + k);
                PBT_REQUIRE("until-result", r.exe->simulate_until(target), "returned false");
                n += k;
                c.note(pbt::cat("simulate_until +", k));
                break;
            }
            case 3: {
                // a long run
                const long k = 1L << c.irange(4, 11);
                const long j = k + c.irange(0, static_cast<int>(k));
                PBT_REQUIRE("until-result", r.exe->simulate_until(s.start + s.base * (n + j)), "returned false");
                n += j;
                c.note(pbt::cat("simulate_until +", j));
                if (j > 1000) c.label("more than 1000 steps in one run");
                break;
            }
            default: {
                // an asynchronous run
                const long k = c.irange(1, 12);
                auto f = r.exe->simulate_until_async(s.start + s.base * (n + k));
                PBT_REQUIRE("until-result", f.get(), "returned false");
                n += k;
                c.note(pbt::cat("simulate_until_async +", k));
            }
        }
        begun = true;
        check_reports();
        check_log(s, r, n, true, false);
        PBT_REQUIRE("current-time", r.exe->current_time() == s.start + s.base * n, show(r.exe->current_time()), " after ", n, " steps");
    });
    r.exe.reset();
    r.algo.reset();
    check_reports();
    check_log(s, r, n, begun, true);
    if (factors.size() > 1) c.label("mixed factors");
    if (*s.threads > 0) c.label("worker threads");
    if (n > *factors.rbegin()) c.nontrivial();
}

int main(int argc, char** argv)
{
    pbt::spec s;
    s.id = "C01";
    s.rule = "a generated system (slaves with random step size hints, explicit factors, connections, initial values, start time, base step, thread count) and a sequence of step/simulate_until/simulate_until_async calls; non-trivial: more base steps than the largest decimation factor";
    s.quick_cases = 60000;
    s.thorough_cases = 1500000;
    s.setup = setup_process;
    s.run = run;
    return pbt::main(argc, argv, s);
}
