#include "sim.hpp"

#include <future>

using namespace sim;

static void run(pbt::test_case& c)
{
    clear_reports();
    gen_options o;
    o.maxSlaves = 5;
    o.maxFunctions = 1;
    o.maxVars = 6;
    o.maxFactor = 3;
    o.initialValues = true;
    auto s = gen_system(c, o);
    c.note(s.text());
    auto r = build(s, true);
    model m(s);
    auto obs = std::make_shared<rec_observer>();
    if (c.chance(50)) r.exe->add_observer(obs);

    struct planned
    {
        int slave;
        fault f;
    };
    std::vector<planned> faults;
    const int nf = c.weighted({80, 15, 5}) + 1;
    bool mayFailSlave = false;
    for (int k = 0; k < nf; ++k) {
        planned p;
        p.slave = static_cast<int>(c.draw(s.slaves.size() - 1));
        static const call where[] = {call::step, call::setup, call::start, call::set, call::get};
        p.f.where = where[c.weighted({40, 12, 12, 20, 16})];
        p.f.type = static_cast<variable_type>(c.draw(3));
        p.f.occurrence = p.f.where == call::setup || p.f.where == call::start ? 0 : c.irange(0, 12);
        static const fault_kind kinds[] = {fault_kind::throw_runtime, fault_kind::throw_error, fault_kind::throw_logic, fault_kind::result_failed, fault_kind::result_canceled, fault_kind::bad_value};
        int kind;
        if (p.f.where == call::step) kind = c.weighted({30, 20, 20, 20, 10});
        else if (p.f.where == call::set) kind = c.weighted({25, 15, 15, 0, 0, 45});
        else kind = c.weighted({40, 30, 30});
        p.f.kind = kinds[kind];
        p.f.text = pbt::cat("fault", k, " happened");
        if (p.f.kind != fault_kind::bad_value) mayFailSlave = true;
        r.slaves[p.slave]->add_fault(p.f);
        faults.push_back(p);
        c.note(pbt::cat("fault in s", p.slave, " ", to_string(p.f.where), " type ", p.f.type, " occurrence ", p.f.occurrence, " kind ", kind));
    }
    if (c.chance(50)) {
        for (std::size_t i = 0; i < r.slaves.size(); ++i) r.slaves[i]->set_jitter(c.irange(0, 30), i);
    }

    bool failed = false;
    long n = 0;
    std::string message;
    c.repeat(1, 8, 4, [&](int) {
        if (failed) return;
        const int how = c.weighted({50, 30, 20});
        const long k = how == 0 ? 1 : c.irange(1, 5);
        try {
            if (how == 0) r.exe->step();
            else if (how == 1) r.exe->simulate_until(s.start + s.base * (n + k));
            else r.exe->simulate_until_async(s.start + s.base * (n + k)).get();
            n += k;
        } catch (const std::exception& e) {
            failed = true;
            message = e.what();
        }
        PBT_REQUIRE("still-running", !r.exe->is_running(), "is_running() after the call has ended", failed ? " with an exception" : "");
        check_reports();
    });
    c.note(pbt::cat(n, " steps, ", failed ? "failed: " + message : "no failure"));
    // Which slaves have actually failed?
    std::vector<int> bad;
    for (std::size_t i = 0; i < r.slaves.size(); ++i) {
        bool b = r.slaves[i]->failed();
        // results other than complete
        if (static_cast<long>(r.slaves[i]->steps().size()) > r.slaves[i]->steps_done()) b = true;
        if (b) bad.push_back(static_cast<int>(i));
    }
    if (!failed) {
        PBT_REQUIRE("failure-not-reported", bad.empty(), s.slaves[bad[0]]->name, " failed but no exception was thrown");
        while (m.steps() < n) m.step();
        compare_steps(s, r, m, "unaffected");
        for (auto& p : faults) {
            if (p.f.kind == fault_kind::bad_value) c.label("bad value tolerated (or not reached)");
        }
        return;
    }
    PBT_REQUIRE("spurious-failure", !bad.empty(), "exception although no slave has failed: ", message);
    (void)mayFailSlave;
    for (int b : bad) {
        PBT_REQUIRE("slave-not-named", message.find(s.slaves[b]->name) != std::string::npos, "the message does not name ", s.slaves[b]->name, ": ", message);
    }
    c.nontrivial();
    for (auto& p : faults) {
        if (std::count(bad.begin(), bad.end(), p.slave)) c.label(pbt::cat("failure in ", to_string(p.f.where)));
    }
    if (bad.size() > 1) c.label("several failures at once");
    const auto t = r.exe->current_time();
    PBT_REQUIRE("time-after-failure", t >= s.start && (t - s.start).count() % s.base.count() == 0, "current time ", show(t));
    const long done = (t - s.start) / s.base;

    // All other slaves have had the right steps, and possibly the one in which the failure occurred.
    while (m.steps() <= done) m.step();
    auto check_prefix = [&] {
        for (std::size_t i = 0; i < r.slaves.size(); ++i) {
            const auto real = r.slaves[i]->steps();
            PBT_REQUIRE("extra-step", real.size() <= m.stepsOf[i].size(), s.slaves[i]->name, " took ", real.size(), " steps, at most ", m.stepsOf[i].size(), " expected");
            for (std::size_t k = 0; k < real.size(); ++k) {
                PBT_REQUIRE("out-of-sequence", real[k].t == m.stepsOf[i][k].t && real[k].dt == m.stepsOf[i][k].dt, s.slaves[i]->name, " step ", k, " at ", show(real[k].t));
                PBT_REQUIRE("value-before-failure", real[k].snapshot == m.stepsOf[i][k].snapshot, s.slaves[i]->name, " step ", k, " had wrong inputs");
            }
        }
    };
    check_prefix();
    // Trying to go on is an error too; it neither crashes nor calls the failed slave.
    if (c.chance(50)) {
        c.label("attempt to continue");
        bool threw = false;
        try {
            if (c.chance(50)) r.exe->step();
            else r.exe->simulate_until(t + s.base * 3);
        } catch (const std::exception&) {
            threw = true;
        }
        PBT_REQUIRE("continued-after-failure", threw, "the simulation could be continued");
        PBT_REQUIRE("still-running", !r.exe->is_running(), "is_running()");
        PBT_REQUIRE("time-after-failure", r.exe->current_time() == t, "time went on");
        check_reports();
        check_prefix();
    }
    if (c.chance(20)) {
        bool threw = false;
        try {
            r.exe->simulate_until_async(std::nullopt).get();
        } catch (const std::exception&) {
            threw = true;
        }
        PBT_REQUIRE("continued-after-failure", threw, "the simulation could be continued");
    }
    r.exe.reset();
    r.algo.reset();
    clear_reports();
}

int main(int argc, char** argv)
{
    pbt::spec s;
    s.id = "C07";
    s.rule = "a generated system in which one to three faults (exceptions of several types from setup, start, step or a typed variable access, failed or canceled steps, non-fatal bad values) are planted at random occurrences, with random worker thread counts; non-trivial: a slave actually failed";
    s.quick_cases = 60000;
    s.thorough_cases = 1200000;
    s.hang_seconds = 40;
    s.attempts = 10;
    s.setup = setup_process;
    s.run = run;
    return pbt::main(argc, argv, s);
}
