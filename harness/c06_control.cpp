#include "sim.hpp"

#include <atomic>
#include <future>
#include <thread>

using namespace sim;

static void run(pbt::test_case& c)
{
    clear_reports();
    gen_options o;
    o.maxSlaves = 3;
    o.maxVars = 4;
    o.maxFactor = 3;
    o.threadCounts = {0, 1, 2};
    auto s = gen_system(c, o);
    c.note(s.text());
    auto r = build(s, true);
    model m(s);
    std::atomic<int> stopIn{-1}; // stop in the n-th step from now
    std::atomic<bool> expectRunning{false};
    std::atomic<bool> stopRequested{false}; // from outside: is_running() may already be false in the last step
    auto* exe = r.exe.get();
    // A slave that takes every step drives the stop requests.
    slave_def driverDef;
    driverDef.name = "driver";
    driverDef.md.name = "driver";
    driverDef.md.uuid = "driver";
    auto driver = std::make_shared<rec_slave>(&driverDef);
    std::atomic<long> driverSteps{0};
    driver->onStep = [&] {
        ++driverSteps;
        if (!stopRequested && exe->is_running() != expectRunning && !stopRequested) report("is-running", expectRunning ? "is_running() is false in a step of simulate_until()" : "is_running() is true in step()");
        if (stopIn >= 0 && stopIn-- == 0) exe->stop_simulation();
    };
    exe->add_slave(driver, "driver");
    long n = 0;
    auto now = [&] { return s.start + s.base * n; };
    auto check = [&] {
        check_reports();
        PBT_REQUIRE("current-time", exe->current_time() == now(), "current time is ", show(exe->current_time()), " after ", n, " steps, expected ", show(now()));
        PBT_REQUIRE("running-after", !exe->is_running(), "is_running() between calls");
        PBT_REQUIRE("driver-steps", driverSteps == n, "the driver took ", driverSteps.load(), " steps, expected ", n);
        while (m.steps() < n) m.step();
        compare_steps(s, r, m, "history");
    };
    c.repeat(1, 10, 4, [&](int) {
        switch (c.weighted({20, 35, 15, 15, 10, 5})) {
            case 0: {
                c.note("step()");
                expectRunning = false;
                const auto d = exe->step();
                PBT_REQUIRE("step-result", d == s.base, "step() returned ", show(d));
                ++n;
                check();
                break;
            }
            case 1:
            case 2: {
                // up to a time which need not be a communication point
                const long k = c.irange(1, 15);
                const bool exact = c.chance(50);
                duration offset{0}; // before the k-th communication point
                if (!exact) offset = duration(c.range(0, s.base.count() - 1));
                const auto target = now() + s.base * k - offset;
                if (target <= now()) break;
                c.note(pbt::cat("simulate_until(now + ", show(target - now()), ")"));
                expectRunning = true;
                const bool async = c.chance(30);
                const bool res = async ? exe->simulate_until_async(target).get() : exe->simulate_until(target);
                PBT_REQUIRE("until-result", res, "simulate_until() returned false although nobody stopped it");
                // A point just before the target, within a hundredth of a step, may count as reached.
                const auto past = s.base - offset; // how far the target is after the previous communication point
                const bool near = offset.count() > 0 && static_cast<double>(past.count()) <= 0.0101 * static_cast<double>(s.base.count());
                const bool sureNear = offset.count() > 0 && static_cast<double>(past.count()) < 0.0099 * static_cast<double>(s.base.count());
                if (near && k > 1 && driverSteps == n + k - 1) {
                    n += k - 1;
                    c.label("target just after a communication point");
                } else {
                    (void)sureNear;
                    n += k;
                }
                if (!exact) c.label("target between communication points");
                check();
                break;
            }
            case 3: {
                // stop from inside
                const int k = c.irange(0, 6);
                c.note(pbt::cat("stop in step ", k));
                expectRunning = true;
                stopIn = k;
                const bool open = c.chance(50);
                std::optional<time_point> target;
                if (!open) target = now() + s.base * c.irange(1, 12);
                const long avail = open ? 1000000 : (*target - now()) / s.base;
                const bool res = c.chance(50) ? exe->simulate_until(target) : exe->simulate_until_async(target).get();
                if (k < avail) {
                    PBT_REQUIRE("stop-ignored", !res, "simulate_until() returned true although it was stopped in its step ", k);
                    PBT_REQUIRE("stop-late", driverSteps - n == k + 1, "simulate_until() took ", driverSteps - n, " steps although it was stopped in its step ", k);
                    n += k + 1;
                    c.label("stopped from within a step");
                } else {
                    PBT_REQUIRE("until-result", res, "simulate_until() returned false although nobody stopped it");
                    n += avail;
                }
                stopIn = -1;
                check();
                break;
            }
            case 4: {
                // stop from outside, perhaps before it gets going
                const int delay = c.weighted({50, 30, 20}) == 0 ? 0 : c.irange(1, 300);
                c.note(pbt::cat("asynchronous run stopped after ", delay, " us"));
                expectRunning = true;
                auto f = exe->simulate_until_async(std::nullopt);
                if (delay) std::this_thread::sleep_for(std::chrono::microseconds(delay));
                stopRequested = true;
                exe->stop_simulation();
                PBT_REQUIRE("stop-lost", f.wait_for(std::chrono::seconds(15)) == std::future_status::ready, "simulate_until_async() went on after stop_simulation()");
                PBT_REQUIRE("stop-ignored", !f.get(), "simulate_until_async() returned true although it was stopped");
                PBT_REQUIRE("no-step", driverSteps >= n, "steps");
                n = driverSteps;
                stopRequested = false;
                c.label("stopped from another thread");
                check();
                break;
            }
            default:
                // has no effect on later runs
                c.note("stop while not running");
                exe->stop_simulation();
                check();
        }
    });
    if (n >= 2) c.nontrivial();
}

int main(int argc, char** argv)
{
    pbt::spec s;
    s.id = "C06";
    s.rule = "a generated system and a sequence of step, simulate_until and simulate_until_async calls with targets on and between communication points, stopped from within steps and from another thread at random moments; non-trivial: at least two base steps";
    s.quick_cases = 40000;
    s.thorough_cases = 800000;
    s.hang_seconds = 40;
    s.attempts = 20;
    s.setup = setup_process;
    s.run = run;
    return pbt::main(argc, argv, s);
}
