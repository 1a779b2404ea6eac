// C33: real-time mode never runs ahead of the requested pace.
#include "sim.hpp"

#include <cosim/timer.hpp>

#include <cmath>
#include <cstring>
#include <deque>
#include <thread>

namespace
{
using wall = std::chrono::steady_clock;
using cosim::duration;
using cosim::time_point;
using ns = std::chrono::nanoseconds;

double secs(wall::duration d) { return std::chrono::duration<double>(d).count(); }
double ratio(duration sim, wall::duration real) { return static_cast<double>(sim.count()) / static_cast<double>(ns(real).count()); }

/// Waits may end this much too early: the granularity of the timer, and rounding.
constexpr double granularity = 150e-6;
/// Far more than a case ever needs to wait.
constexpr double eternity = 5.0;

struct settings
{
    bool on = false;
    double factor = 1.0;
    int steps = 5;
    int period = -1;
    bool operator==(const settings& o) const { return on == o.on && factor == o.factor && steps == o.steps && period == o.period; }
    bool pacing() const { return on && factor > 0; }
    std::string str() const { return pbt::cat(on ? "on" : "off", ", factor ", factor, ", ", steps, " steps, ", period, " ms"); }
};

void apply(cosim::real_time_config& c, const settings& s, const settings& old)
{
    if (s.on != old.on) c.real_time_simulation = s.on;
    if (s.factor != old.factor) c.real_time_factor_target = s.factor;
    if (s.steps != old.steps) c.steps_to_monitor = s.steps;
    if (s.period != old.period) c.sampling_period_to_monitor = std::chrono::milliseconds(s.period);
}

/// A moment which is known to lie between two others.
struct moment
{
    wall::time_point lo, hi;
};

/// What is known about the progress since pacing was last reset, and what follows from it.
class monitor
{
public:
    explicit monitor(std::shared_ptr<const cosim::real_time_metrics> m)
        : metrics_(std::move(m))
    {
        rolling_ = metrics_->rolling_average_real_time_factor;
    }

    bool paced = false; // whether there has been something to check about the pace
    bool rolled = false; // whether the rolling average has been updated
    bool retimed = false; // whether pacing has been checked after a change of settings

    void started(time_point t, moment m) { reset(t, m, false); }

    /// Called when a step has been completed at logical time `t`, including
    /// any waiting; the time after the step itself but before waiting is `before`.
    void completed(time_point t, const settings& s, moment m)
    {
        const double rolling = metrics_->rolling_average_real_time_factor;
        const double total = metrics_->total_average_real_time_factor;
        if (!(s == settings_)) {
            const bool lapse = secs(m.hi - m.lo) > eternity;
            if (lapse) pbt::fail("late", pbt::cat("the step after a change of settings took ", secs(m.hi - m.lo), " s"));
            settings_ = s;
            reset(t, m, true);
            rolling_ = rolling;
            return;
        }
        const auto d = t - base_;
        const double elapsed = secs(m.hi - baseWall_.lo);
        if (s.pacing()) {
            const double wanted = cosim::to_double_duration(d, time_point()) / s.factor;
            if (elapsed < wanted - granularity)
                pbt::fail("ahead", pbt::cat("only ", elapsed, " s have passed for a logical time of ", cosim::to_double_duration(d, time_point()), " s with factor ", s.factor));
            if (secs(m.hi - m.lo) > wanted + eternity)
                pbt::fail("late", pbt::cat("a step which should have been over within ", wanted, " s took ", secs(m.hi - m.lo), " s"));
            if (wanted > 2 * granularity) {
                paced = true;
                retimed = retimed || changed_;
            }
        } else if (secs(m.hi - m.lo) > eternity)
            pbt::fail("waiting", pbt::cat("a step without pacing took ", secs(m.hi - m.lo), " s"));

        // when the metrics were updated
        moment at = m;
        if (s.pacing()) {
            const auto soonest = baseWall_.lo + std::chrono::duration_cast<wall::duration>(std::chrono::duration<double>(cosim::to_double_duration(d, time_point()) / s.factor - granularity));
            if (soonest > at.lo) at.lo = std::min(soonest, at.hi);
        }
        check_value("total", total, d, at, baseWall_);
        ++count_;
        if (std::memcmp(&rolling, &rolling_, sizeof rolling) != 0) {
            rolling_ = rolling;
            if (s.period > 0) {
                if (secs(at.hi - windowWall_.lo) * 1000 <= s.period)
                    pbt::fail("rolling-early", pbt::cat("updated after at most ", secs(at.hi - windowWall_.lo), " s, while the sampling period is ", s.period, " ms"));
            } else if (count_ < s.steps)
                pbt::fail("rolling-early", pbt::cat("updated after ", count_, " steps instead of ", s.steps));
            check_value("rolling", rolling, t - window_, at, windowWall_);
            window_ = t;
            windowWall_ = at;
            count_ = 0;
            rolled = true;
        } else {
            if (s.period > 0) {
                if (secs(at.lo - windowWall_.hi) * 1000 > s.period)
                    pbt::fail("rolling-late", pbt::cat("not updated after at least ", secs(at.lo - windowWall_.hi), " s, while the sampling period is ", s.period, " ms"));
            } else if (count_ > s.steps)
                pbt::fail("rolling-late", pbt::cat("not updated after ", count_, " steps, instead of ", s.steps));
        }
    }

private:
    void reset(time_point t, moment m, bool changed)
    {
        base_ = window_ = t;
        baseWall_ = windowWall_ = m;
        count_ = 0;
        changed_ = changed;
    }

    void check_value(const char* what, double v, duration sim, moment at, moment from)
    {
        const double least = ratio(sim, at.hi - from.lo) * (1 - 1e-6);
        const auto shortest = at.lo - from.hi;
        if (!(v > 0)) pbt::fail(pbt::cat(what, "-factor"), pbt::cat("the ", what, " average is ", v));
        if (v < least) pbt::fail(pbt::cat(what, "-factor"), pbt::cat("the ", what, " average is ", v, ", but at least ", least, " has been achieved"));
        if (shortest.count() > 0 && v > ratio(sim, shortest) * (1 + 1e-6))
            pbt::fail(pbt::cat(what, "-factor"), pbt::cat("the ", what, " average is ", v, ", but no more than ", ratio(sim, shortest), " has been achieved"));
    }

    std::shared_ptr<const cosim::real_time_metrics> metrics_;
    settings settings_;
    time_point base_, window_;
    moment baseWall_, windowWall_;
    int count_ = 0;
    bool changed_ = false;
    double rolling_ = 1.0;
};

/// Settings with which a logical time of `typical` takes at most a few milliseconds.
settings gen_settings(pbt::test_case& c, settings s, double typical)
{
    auto pace = [&] {
        // wall-clock time for a typical step
        const double w = c.one_of<double>({1e-3, 0.5e-3, 2e-3, 4e-3, 0.2e-3, 0.05e-3, 8e-3});
        return typical / w;
    };
    if (!s.pacing() && c.chance(70)) {
        s.on = true;
        s.factor = pace();
        if (c.chance(50)) return s;
    }
    switch (c.weighted({5, 3, 2, 2})) {
        case 0: s.factor = pace(); break;
        case 1:
            if (c.chance(50)) s.on = !s.on;
            else s.factor = c.one_of<double>({0.0, -1.0, -1e300, -std::numeric_limits<double>::infinity()});
            break;
        case 2: s.steps = c.one_of<int>({1, 2, 3, 5, 0, 8, -1}); break;
        default: s.period = c.one_of<int>({1, 2, 5, 10, -1, 0});
    }
    if (s.pacing() && typical / s.factor > 10e-3) s.factor = pace();
    return s;
}

void linger(int us)
{
    if (us > 0) std::this_thread::sleep_for(std::chrono::microseconds(us));
}

void direct(pbt::test_case& c)
{
    cosim::real_time_timer timer;
    auto config = timer.get_real_time_config();
    monitor mon(timer.get_real_time_metrics());
    settings s;
    double typical = c.one_of<double>({1e-3, 1.0, 0.1, 1e-6, 100.0, 1e4});
    time_point t(ns(c.one_of<std::int64_t>({0, 1000000000, 5, -1000000000, 1000000000000000})));
    c.note(pbt::cat("start at ", t.time_since_epoch().count()));
    moment m;
    m.lo = wall::now();
    timer.start(t);
    m.hi = wall::now();
    mon.started(t, m);
    c.repeat(2, c.sized(10, 40), c.sized(8, 25), [&](int) {
        switch (c.weighted({12, 3, 2})) {
            case 0: {
                const int busy = c.chance(30) ? c.one_of<int>({50, 200, 1000, 3000}) : 0;
                linger(busy);
                // A step, and without pacing also one that would take forever.
                double d = typical * c.one_of<double>({1.0, 1.0, 0.5, 2.0, 0.1, 3.0});
                if (!s.pacing() && c.chance(40)) d = 1e6;
                auto ticks = cosim::to_duration(d);
                if (ticks.count() < 1) ticks = ns(1);
                t += ticks;
                c.note(pbt::cat("step ", d, " s", busy ? pbt::cat(" after ", busy, " us") : std::string()));
                moment w;
                w.lo = wall::now();
                timer.sleep(t);
                w.hi = wall::now();
                mon.completed(t, s, w);
                break;
            }
            case 1: {
                settings n;
                if (s.pacing() && c.chance(25)) {
                    // From now on the steps are much larger, which would take
                    // ages at the old pace, or much smaller.
                    const double scale = typical < 1 || (typical < 1e3 && c.chance(70)) ? 1e5 : 1e-5;
                    c.label("vastly different pace");
                    typical *= scale;
                    n = s;
                    n.factor *= scale;
                } else n = gen_settings(c, s, typical);
                apply(*config, n, s);
                s = n;
                c.note("set " + s.str());
                break;
            }
            default: {
                const int away = c.one_of<int>({0, 100, 1000, 5000});
                linger(away);
                c.note(pbt::cat("resume after ", away, " us"));
                c.label("resumed");
                moment w;
                w.lo = wall::now();
                timer.start(t);
                w.hi = wall::now();
                mon.started(t, w);
            }
        }
    });
    if (mon.paced) c.nontrivial();
    if (mon.rolled) c.label("rolling average updated");
    if (mon.retimed) c.label("pace changed");
    if (mon.paced) c.label("paced");
}

/// A slave which only tells when it is stepped.
class ticker : public cosim::slave
{
public:
    std::function<void(time_point, duration)> onStep;
    cosim::model_description model_description() const override
    {
        cosim::model_description md;
        md.name = "ticker";
        md.uuid = "ticker";
        return md;
    }
    void setup(time_point, std::optional<time_point>, std::optional<double>) override { }
    void start_simulation() override { }
    void end_simulation() override { }
    cosim::step_result do_step(time_point t, duration dt) override
    {
        onStep(t, dt);
        return cosim::step_result::complete;
    }
    void get_real_variables(gsl::span<const cosim::value_reference>, gsl::span<double>) const override { }
    void get_integer_variables(gsl::span<const cosim::value_reference>, gsl::span<int>) const override { }
    void get_boolean_variables(gsl::span<const cosim::value_reference>, gsl::span<bool>) const override { }
    void get_string_variables(gsl::span<const cosim::value_reference>, gsl::span<std::string>) const override { }
    void set_real_variables(gsl::span<const cosim::value_reference>, gsl::span<const double>) override { }
    void set_integer_variables(gsl::span<const cosim::value_reference>, gsl::span<const int>) override { }
    void set_boolean_variables(gsl::span<const cosim::value_reference>, gsl::span<const bool>) override { }
    void set_string_variables(gsl::span<const cosim::value_reference>, gsl::span<const std::string>) override { }
};

void whole(pbt::test_case& c)
{
    c.label("whole simulation");
    const double typical = c.one_of<double>({1e-3, 1.0, 0.1, 100.0});
    const auto step = cosim::to_duration(typical);
    time_point t(ns(c.one_of<std::int64_t>({0, 1000000000, 5})));
    cosim::execution exec(t, std::make_shared<cosim::fixed_step_algorithm>(step));
    auto slave = std::make_shared<ticker>();
    exec.add_slave(slave, "s");
    auto config = exec.get_real_time_config();
    monitor mon(exec.get_real_time_metrics());
    settings s; // as of the step in progress
    bool first = false;
    std::string tag, error;
    wall::time_point entered; // into the step in progress
    wall::time_point called;
    int plannedUs = 0, changeAt = -1, stepNo = 0;
    settings planned;

    slave->onStep = [&](time_point now, duration) {
        const auto w = wall::now();
        try {
            if (first) {
                // pacing starts after the call and before the first step
                mon.started(now, {called, w});
                first = false;
            } else mon.completed(now, s, {entered, w});
        } catch (const pbt::failure& f) {
            if (error.empty()) {
                tag = f.tag;
                error = f.message;
            }
        }
        entered = w;
        linger(plannedUs);
        if (stepNo++ == changeAt) {
            apply(*config, planned, s);
            s = planned;
        }
    };
    c.repeat(1, c.sized(4, 10), c.sized(3, 6), [&](int) {
        if (c.chance(60)) {
            const auto n = gen_settings(c, s, typical);
            apply(*config, n, s);
            s = n;
            c.note("set " + s.str());
        }
        plannedUs = c.chance(30) ? c.one_of<int>({100, 1000, 3000}) : 0;
        linger(c.one_of<int>({0, 500, 4000}));
        const int n = c.irange(1, 8);
        changeAt = -1;
        stepNo = 0;
        if (c.chance(40)) {
            changeAt = c.irange(0, n - 1);
            planned = gen_settings(c, s, typical);
            c.note(pbt::cat("to be set in step ", changeAt, ": ", planned.str()));
        }
        t += n * step;
        c.note(pbt::cat(n, " steps", plannedUs ? pbt::cat(" of ", plannedUs, " us") : std::string()));
        first = true;
        called = wall::now();
        exec.simulate_until(t);
        const auto w = wall::now();
        PBT_REQUIRE("time", exec.current_time() == t, sim::show(exec.current_time()), " instead of ", sim::show(t));
        PBT_REQUIRE("steps", stepNo == n, stepNo, " instead of ", n);
        if (!error.empty()) pbt::fail(tag, error);
        mon.completed(t, s, {entered, w});
    });
    if (mon.paced) c.nontrivial();
    if (mon.rolled) c.label("rolling average updated");
    if (mon.retimed) c.label("pace changed");
    if (mon.paced) c.label("paced");
}

void run(pbt::test_case& c)
{
    if (c.chance(60)) direct(c);
    else whole(c);
}

} // namespace

int main(int argc, char** argv)
{
    pbt::spec s;
    s.id = "C33";
    s.rule =
        "Cases are histories of steps, pauses and changes of settings, for the timer alone and for whole simulations. "
        "The wall-clock time since the last start, resumption or change is compared with what pacing allows, and the reported factors with brackets computed from the times observed before and after each step. "
        "Non-trivial: at least one step for which pacing required a noticeable wait.";
    s.quick_cases = 20000;
    s.thorough_cases = 200000;
    s.hang_seconds = 30;
    s.workers = 32;
    s.setup = sim::setup_process;
    s.run = run;
    return pbt::main(argc, argv, s);
}
