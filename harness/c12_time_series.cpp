#include "sim.hpp"

#include <cosim/observer/time_series_observer.hpp>

using namespace sim;

namespace
{
using cosim::step_number;

struct sample
{
    step_number step;
    time_point t;
    value v;
};

void run(pbt::test_case& c)
{
    clear_reports();
    gen_options o;
    o.maxSlaves = 3;
    o.maxFunctions = 1;
    o.maxFactor = 4;
    o.maxVars = 6;
    o.extraReal = 50;
    o.threadCounts = {0, 0, 2};
    auto s = gen_system(c, o);
    c.note(s.text());
    const int ns = static_cast<int>(s.slaves.size());
    auto r = build(s, true);
    model m(s);
    struct observing
    {
        std::shared_ptr<cosim::time_series_observer> o;
        std::size_t buffer;
        std::vector<std::vector<std::pair<step_number, time_point>>> times;
        std::map<std::pair<int, int>, std::vector<sample>> samples;
    };
    std::vector<observing> obs;
    long n = 0;
    bool init = false;
    auto now = [&] { return s.start + s.base * n; };
    auto record = [&](observing& b, int i) {
        b.times[i].emplace_back(n, now());
        if (b.times[i].size() > b.buffer) b.times[i].erase(b.times[i].begin());
        for (auto& [k, v] : b.samples) {
            if (k.first != i) continue;
            v.push_back({n, now(), m.read(k.first, k.second)});
            if (v.size() > b.buffer) v.erase(v.begin());
        }
    };
    auto add = [&] {
        observing b;
        if (c.chance(30)) {
            b.o = std::make_shared<cosim::time_series_observer>();
            b.buffer = 10000;
        } else {
            b.buffer = static_cast<std::size_t>(c.irange(1, 12));
            b.o = std::make_shared<cosim::time_series_observer>(b.buffer);
        }
        b.times.resize(ns);
        r.exe->add_observer(b.o);
        obs.push_back(b);
        if (init) {
            c.label("observer added during the simulation");
            for (int i = 0; i < ns; ++i) record(obs.back(), i);
        }
        c.note(pbt::cat("add observer ", obs.size() - 1, " with buffer size ", b.buffer, " after ", n, " steps"));
    };
    std::vector<std::pair<int, int>> vars, others;
    for (int i = 0; i < ns; ++i) {
        for (int v = 0; v < s.slaves[i]->var_count(); ++v) {
            const auto t = s.slaves[i]->var(v).type;
            (t == variable_type::real || t == variable_type::integer ? vars : others).emplace_back(i, v);
        }
    }
    if (vars.empty()) c.discard();
    add();
    auto query = [&](observing& b, std::pair<int, int> v, step_number from, std::size_t size) {
        const auto it = b.samples.find(v);
        const auto id = s.vid(v.first, v.second);
        // one more element than passed, to see that it isn't touched
        std::vector<double> reals(size + 1, -12345.5);
        std::vector<int> ints(size + 1, -12345);
        std::vector<step_number> steps(size + 1, -777);
        std::vector<time_point> times(size + 1, at(-777));
        std::size_t got = 0;
        bool threw = false;
        try {
            if (id.type == variable_type::real) {
                got = b.o->get_real_samples(v.first, id.reference, from, gsl::make_span(reals.data(), size), gsl::make_span(steps.data(), size), gsl::make_span(times.data(), size));
            } else {
                got = b.o->get_integer_samples(v.first, id.reference, from, gsl::make_span(ints.data(), size), gsl::make_span(steps.data(), size), gsl::make_span(times.data(), size));
            }
        } catch (const std::exception&) {
            threw = true;
        }
        const auto name = pbt::cat("observer ", &b - obs.data(), ", s", v.first, "[", v.second, "], query from ", from, " for ", size);
        std::vector<sample> want;
        if (it != b.samples.end()) {
            for (auto& x : it->second) {
                if (x.step >= from && x.step < from + static_cast<step_number>(size)) want.push_back(x);
            }
        }
        if (it == b.samples.end() || it->second.empty()) {
            PBT_REQUIRE("samples-from-nothing", threw || got == 0, name, ": got ", got, " samples although nothing was recorded");
            return;
        }
        PBT_REQUIRE("query-failed", !threw, name, ": threw an exception");
        PBT_REQUIRE("sample-count", got == want.size(), name, ": got ", got, " samples, expected ", want.size());
        for (std::size_t k = 0; k < got; ++k) {
            const auto x = id.type == variable_type::real ? value(reals[k]) : value(ints[k]);
            PBT_REQUIRE("sample", steps[k] == want[k].step && times[k] == want[k].t && x == want[k].v, name, ": sample ", k, " is (", steps[k], ", ", show(times[k]), ", ", show(x), "), expected (", want[k].step,
                ", ", show(want[k].t), ", ", show(want[k].v), ")");
        }
        PBT_REQUIRE("overrun", steps[size] == -777 && times[size] == at(-777) && ints[size] == -12345 && reals[size] == -12345.5, name, ": wrote beyond the output");
        if (got > 0) c.label("samples retrieved");
    };
    auto ranges = [&](observing& b, int i) {
        auto& ts = b.times[i];
        if (ts.empty()) return;
        step_number steps[3] = {-777, -777, -777};
        if (c.chance(50)) {
            const auto d = c.chance(30) ? duration(c.range(0, s.base.count() * (n + 2))) : s.base * c.irange(0, static_cast<int>(n) + 1);
            b.o->get_step_numbers(i, d, gsl::make_span(steps, 2));
            auto first = ts.front().first;
            for (auto& x : ts) {
                if (x.second <= ts.back().second - d) first = x.first;
            }
            PBT_REQUIRE("range-duration", steps[0] == first && steps[1] == ts.back().first, "observer ", &b - obs.data(), ", s", i, ", last ", show(d), ": got ", steps[0], "..", steps[1], ", expected ", first, "..",
                ts.back().first);
        } else {
            auto any = [&] { return s.start + (c.chance(30) ? duration(c.range(-s.base.count(), s.base.count() * (n + 2))) : s.base * c.irange(-1, static_cast<int>(n) + 1)); };
            auto t0 = any(), t1 = any();
            if (t1 < t0) std::swap(t0, t1);
            b.o->get_step_numbers(i, t0, t1, gsl::make_span(steps, 2));
            auto first = ts.front().first, last = ts.back().first;
            for (auto& x : ts) {
                if (x.second <= t0) first = x.first;
            }
            for (auto x = ts.rbegin(); x != ts.rend(); ++x) {
                if (x->second >= t1) last = x->first;
            }
            PBT_REQUIRE("range-times", steps[0] == first && steps[1] == last, "observer ", &b - obs.data(), ", s", i, ", from ", show(t0), " to ", show(t1), ": got ", steps[0], "..", steps[1], ", expected ", first, "..",
                last);
        }
        PBT_REQUIRE("overrun", steps[2] == -777, "wrote beyond the output");
        c.label("range query");
    };
    auto synchronised = [&](observing& b) {
        std::vector<std::pair<int, int>> reals;
        for (auto& v : vars) {
            if (s.slaves[v.first]->var(v.second).type == variable_type::real) reals.push_back(v);
        }
        if (reals.empty()) return;
        const auto v1 = c.pick(reals), v2 = c.pick(reals);
        const step_number from = c.irange(0, static_cast<int>(n) + 1);
        const std::size_t size = static_cast<std::size_t>(c.irange(0, static_cast<int>(n) + 3));
        std::vector<double> a1(size + 1, -12345.5), a2(size + 1, -12345.5);
        bool threw = false;
        std::size_t got = 0;
        try {
            got = b.o->get_synchronized_real_series(v1.first, s.vid(v1.first, v1.second).reference, v2.first, s.vid(v2.first, v2.second).reference, from, gsl::make_span(a1.data(), size), gsl::make_span(a2.data(), size));
        } catch (const std::exception&) {
            threw = true;
        }
        const auto i1 = b.samples.find(v1), i2 = b.samples.find(v2);
        const bool none = i1 == b.samples.end() || i2 == b.samples.end() || i1->second.empty() || i2->second.empty();
        if (none) {
            PBT_REQUIRE("samples-from-nothing", threw || got == 0, "synchronised series of variables without samples");
            return;
        }
        PBT_REQUIRE("query-failed", !threw, "synchronised series: exception");
        std::vector<std::pair<double, double>> want;
        for (auto& x : i1->second) {
            for (auto& y : i2->second) {
                if (x.step == y.step && x.step >= from && x.step < from + static_cast<step_number>(size)) want.emplace_back(std::get<double>(x.v), std::get<double>(y.v));
            }
        }
        PBT_REQUIRE("sync-count", got == want.size(), "synchronised series from ", from, " for ", size, ": got ", got, " pairs, expected ", want.size());
        for (std::size_t k = 0; k < got; ++k) PBT_REQUIRE("sync-value", a1[k] == want[k].first && a2[k] == want[k].second, "pair ", k);
        if (got > 0) c.label("synchronised series");
    };
    c.repeat(2, 26, 12, [&](int) {
        auto& b = c.pick(obs);
        switch (c.weighted({25, 20, 20, 12, 12, 8, 3, 4})) {
            case 0: {
                const int k = c.irange(1, 6);
                c.note(pbt::cat(k, " steps"));
                for (int j = 0; j < k; ++j) r.exe->step();
                for (int j = 0; j < k; ++j) {
                    if (!init) {
                        m.initialize();
                        init = true;
                        for (auto& x : obs) {
                            for (int i = 0; i < ns; ++i) record(x, i);
                        }
                    }
                    m.step();
                    ++n;
                    for (auto& x : obs) {
                        for (int i : m.finished()) record(x, i);
                    }
                }
                check_reports();
                break;
            }
            case 1: {
                const auto v = c.pick(vars);
                c.note(pbt::cat("observer ", &b - obs.data(), " observes s", v.first, "[", v.second, "] after ", n, " steps"));
                b.o->start_observing(s.vid(v.first, v.second));
                b.samples[v].clear();
                break;
            }
            case 2: {
                if (b.samples.empty() || c.chance(10)) {
                    query(b, c.pick(vars), c.irange(0, 4), static_cast<std::size_t>(c.irange(0, 10)));
                    break;
                }
                const auto v = c.pick(b.samples).first;
                query(b, v, c.irange(0, static_cast<int>(n) + 2), static_cast<std::size_t>(c.irange(0, static_cast<int>(n) + 4)));
                break;
            }
            case 3: ranges(b, c.irange(0, ns - 1)); break;
            case 4: synchronised(b); break;
            case 5: {
                const auto v = c.pick(vars);
                c.note(pbt::cat("observer ", &b - obs.data(), " stops observing s", v.first, "[", v.second, "]"));
                b.o->stop_observing(s.vid(v.first, v.second));
                b.samples.erase(v);
                break;
            }
            case 6: { // unsupported types
                bool threw = false;
                cosim::variable_id id{ns + 1, variable_type::real, 0};
                if (!others.empty() && c.chance(70)) {
                    const auto v = c.pick(others);
                    id = s.vid(v.first, v.second);
                }
                try {
                    b.o->start_observing(id);
                } catch (const std::exception&) {
                    threw = true;
                }
                PBT_REQUIRE("unsupported-accepted", threw, "started to observe ", id);
                break;
            }
            default:
                if (obs.size() < 3) add();
        }
    });
    for (auto& b : obs) {
        for (auto& [v, x] : b.samples) query(b, v, 0, static_cast<std::size_t>(n) + 2);
        ranges(b, c.irange(0, ns - 1));
    }
    long total = 0;
    for (auto& b : obs) {
        for (auto& x : b.samples) total += static_cast<long>(x.second.size());
    }
    if (total >= 3) c.nontrivial();
}
} // namespace

int main(int argc, char** argv)
{
    pbt::spec s;
    s.id = "C12";
    s.rule = "a generated system, time-series observers with random buffer sizes added at random times, variables observed, re-observed and dropped between steps, and sample, range and synchronised queries compared with an explicit history; non-trivial: at least three samples in the history";
    s.quick_cases = 60000;
    s.thorough_cases = 1500000;
    s.setup = setup_process;
    s.run = run;
    return pbt::main(argc, argv, s);
}
