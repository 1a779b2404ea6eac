// C34: observing and controlling a simulation from other threads.
#include "filelog.hpp"
#include "manip.hpp"

#include <cosim/manipulator/override_manipulator.hpp>
#include <cosim/observer/last_value_observer.hpp>
#include <cosim/observer/time_series_observer.hpp>

#include <thread>

using namespace sim;

namespace
{

/// What has been reported about one simulator. The counters are deliberately
/// accessed with relaxed ordering, so they don't hide data races.
struct progress
{
    std::atomic<long> any{0}; // states of which at least one of the probes has been told
    std::atomic<long> all{0}; // states of which both have been told
};

struct state
{
    cosim::step_number step;
    time_point t;
    std::vector<value> values;
};

/// Two of these surround the observers under test.
class probe : public cosim::observer
{
public:
    probe(std::vector<progress>* p, bool record)
        : p_(p)
        , hist(p->size())
        , record_(record)
    { }
    void simulator_added(cosim::simulator_index i, cosim::observable* o, time_point) override
    {
        obs_[i] = o;
        for (const auto& v : o->model_description().variables) o->expose_for_getting(v.type, v.reference);
    }
    void simulator_removed(cosim::simulator_index, time_point) override { }
    void variables_connected(cosim::variable_id, cosim::variable_id, time_point) override { }
    void variable_disconnected(cosim::variable_id, time_point) override { }
    void simulation_initialized(cosim::step_number n, time_point t) override
    {
        for (auto& [i, o] : obs_) told(i, n, t);
    }
    void step_complete(cosim::step_number, duration, time_point) override { }
    void simulator_step_complete(cosim::simulator_index i, cosim::step_number n, duration, time_point t) override { told(i, n, t); }

private:
    std::vector<progress>* p_;
    std::map<int, cosim::observable*> obs_;
    std::map<int, long> told_;

    void told(int i, cosim::step_number n, time_point t)
    {
        const long k = ++told_[i];
        auto& p = (*p_)[static_cast<std::size_t>(i)];
        if (record_) hist[static_cast<std::size_t>(i)].push_back({n, t, read_all(obs_.at(i))});
        if (p.any.load(std::memory_order_relaxed) < k) p.any.store(k, std::memory_order_relaxed);
        else p.all.store(k, std::memory_order_relaxed);
    }

public:
    /// Recorded by one of the probes; for use after the simulation only.
    std::vector<std::vector<state>> hist;

private:
    bool record_;
};

/// The states of a simulator that a reader may have seen.
struct span_of_states
{
    long lo, hi;
};

struct last_read
{
    int sim;
    std::vector<int> vars; // all of one type
    span_of_states when;
    std::vector<value> got;
};

struct series_read
{
    int sim, var;
    cosim::step_number from;
    int n;
    span_of_states when;
    bool none = false;
    std::vector<cosim::step_number> steps;
    std::vector<time_point> times;
    std::vector<value> got;
};

struct numbers_read
{
    int sim;
    duration d;
    span_of_states when;
    cosim::step_number first, last;
};

struct pair_read
{
    int sim1, var1, sim2, var2;
    cosim::step_number from;
    int n;
    span_of_states when1, when2;
    bool none = false;
    std::vector<double> a, b;
};

struct toggle
{
    bool on;
    std::vector<span_of_states> when;
};

struct user
{
    enum kind_t { last, series, recorder, overrider, tuner, stopper } kind;
    std::uint64_t seed;
    int calls;
    int pauseUs;
    // results
    std::vector<last_read> lasts;
    std::vector<series_read> serieses;
    std::vector<numbers_read> numbers;
    std::vector<pair_read> pairs;
    std::vector<toggle> toggles;
    std::string error;
};

template<typename T, typename F>
void get_typed(F f, const std::vector<cosim::value_reference>& refs, std::vector<value>& out)
{
    auto vals = std::make_unique<T[]>(refs.size() + 1);
    f(gsl::make_span(refs), gsl::span<T>(vals.get(), static_cast<std::ptrdiff_t>(refs.size())));
    for (std::size_t i = 0; i < refs.size(); ++i) out.emplace_back(vals[i]);
}

const char* const kind_names[] = {"reads last values", "reads time series", "toggles recording", "overrides variables", "changes real-time settings", "stops"};

struct everything
{
    sysdef s;
    running r;
    std::vector<progress> prog;
    std::shared_ptr<probe> front, back;
    std::shared_ptr<cosim::last_value_observer> lv;
    std::shared_ptr<cosim::time_series_observer> ts;
    std::shared_ptr<cosim::file_observer> file;
    std::shared_ptr<cosim::override_manipulator> ov;
    std::vector<std::pair<int, int>> observed; // by ts
    std::size_t buffer = 10000;
    std::map<std::pair<int, int>, std::optional<value>> overridden; // by the only overrider
    std::vector<std::pair<int, int>> candidates;
    std::atomic<bool> over{false};

    long any(int i) const { return prog[static_cast<std::size_t>(i)].any.load(std::memory_order_relaxed); }
    long all(int i) const { return prog[static_cast<std::size_t>(i)].all.load(std::memory_order_relaxed); }
};

void use(everything& e, user& u)
{
    std::uint64_t x = u.seed;
    const auto rnd = [&](std::uint64_t n) {
        x = mix(x, std::uint64_t(77));
        return static_cast<int>((x >> 20) % n);
    };
    const int ns = static_cast<int>(e.s.slaves.size());
    auto config = e.r.exe->get_real_time_config();
    auto metrics = e.r.exe->get_real_time_metrics();
    for (int call = 0; call < u.calls; ++call) {
        if (u.pauseUs > 0) std::this_thread::sleep_for(std::chrono::microseconds(rnd(static_cast<std::uint64_t>(u.pauseUs) + 1)));
        else std::this_thread::yield();
        switch (u.kind) {
            case user::last: {
                last_read l;
                l.sim = rnd(static_cast<std::uint64_t>(ns));
                const auto& d = *e.s.slaves[static_cast<std::size_t>(l.sim)];
                const auto t = static_cast<variable_type>(rnd(4));
                std::vector<cosim::value_reference> refs;
                for (int v = 0; v < d.var_count(); ++v) {
                    if (d.var(v).type != t) continue;
                    l.vars.push_back(v);
                    refs.push_back(d.var(v).reference);
                }
                if (refs.empty()) break;
                l.when.lo = e.all(l.sim);
                const auto i = l.sim;
                auto& o = *e.lv;
                switch (t) {
                    case variable_type::real: get_typed<double>([&](auto r, auto v) { o.get_real(i, r, v); }, refs, l.got); break;
                    case variable_type::integer: get_typed<int>([&](auto r, auto v) { o.get_integer(i, r, v); }, refs, l.got); break;
                    case variable_type::boolean: get_typed<bool>([&](auto r, auto v) { o.get_boolean(i, r, v); }, refs, l.got); break;
                    default: get_typed<std::string>([&](auto r, auto v) { o.get_string(i, r, v); }, refs, l.got);
                }
                l.when.hi = e.any(l.sim);
                u.lasts.push_back(std::move(l));
                break;
            }
            case user::series: {
                if (e.observed.empty()) break;
                const auto [i, v] = e.observed[static_cast<std::size_t>(rnd(e.observed.size()))];
                const auto& d = e.s.slaves[static_cast<std::size_t>(i)]->var(v);
                const int what = rnd(4);
                if (what == 0) {
                    numbers_read n;
                    n.sim = i;
                    n.d = e.s.base * rnd(8);
                    cosim::step_number out[2] = {-7, -7};
                    n.when.lo = e.all(i);
                    e.ts->get_step_numbers(i, n.d, gsl::span<cosim::step_number>(out, 2));
                    n.when.hi = e.any(i);
                    n.first = out[0];
                    n.last = out[1];
                    u.numbers.push_back(n);
                    break;
                }
                const int n = 1 + rnd(12);
                const auto from = static_cast<cosim::step_number>(std::max<long>(0, e.any(i) * e.s.factor(i) - rnd(15)));
                if (what == 1 && d.type == variable_type::real) {
                    const auto [i2, v2] = e.observed[static_cast<std::size_t>(rnd(e.observed.size()))];
                    const auto& d2 = e.s.slaves[static_cast<std::size_t>(i2)]->var(v2);
                    if (d2.type != variable_type::real) break;
                    pair_read p{i, v, i2, v2, from, n, {}, {}, false, {}, {}};
                    std::vector<double> a(static_cast<std::size_t>(n)), b(static_cast<std::size_t>(n));
                    p.when1.lo = e.all(i);
                    p.when2.lo = e.all(i2);
                    try {
                        const auto k = e.ts->get_synchronized_real_series(i, d.reference, i2, d2.reference, from, gsl::make_span(a), gsl::make_span(b));
                        a.resize(k);
                        b.resize(k);
                        p.a = a;
                        p.b = b;
                    } catch (const std::out_of_range&) {
                        p.none = true;
                    }
                    p.when1.hi = e.any(i);
                    p.when2.hi = e.any(i2);
                    u.pairs.push_back(std::move(p));
                    break;
                }
                series_read q;
                q.sim = i;
                q.var = v;
                q.from = from;
                q.n = n;
                q.steps.resize(static_cast<std::size_t>(n));
                q.times.resize(static_cast<std::size_t>(n));
                q.when.lo = e.all(i);
                std::size_t k = 0;
                try {
                    if (d.type == variable_type::real) {
                        std::vector<double> vals(static_cast<std::size_t>(n));
                        k = e.ts->get_real_samples(i, d.reference, q.from, gsl::make_span(vals), gsl::make_span(q.steps), gsl::make_span(q.times));
                        for (std::size_t j = 0; j < k; ++j) q.got.emplace_back(vals[j]);
                    } else {
                        std::vector<int> vals(static_cast<std::size_t>(n));
                        k = e.ts->get_integer_samples(i, d.reference, q.from, gsl::make_span(vals), gsl::make_span(q.steps), gsl::make_span(q.times));
                        for (std::size_t j = 0; j < k; ++j) q.got.emplace_back(vals[j]);
                    }
                } catch (const std::out_of_range&) {
                    q.none = true;
                }
                q.when.hi = e.any(i);
                q.steps.resize(k);
                q.times.resize(k);
                u.serieses.push_back(std::move(q));
                break;
            }
            case user::recorder: {
                toggle t;
                t.on = !e.file->is_recording();
                t.when.resize(static_cast<std::size_t>(ns));
                for (int i = 0; i < ns; ++i) t.when[static_cast<std::size_t>(i)].lo = e.all(i);
                if (t.on) e.file->start_recording();
                else e.file->stop_recording();
                for (int i = 0; i < ns; ++i) t.when[static_cast<std::size_t>(i)].hi = e.any(i);
                u.toggles.push_back(std::move(t));
                break;
            }
            case user::overrider: {
                if (e.candidates.empty()) break;
                const auto c = e.candidates[static_cast<std::size_t>(rnd(e.candidates.size()))];
                const auto id = e.s.vid(c.first, c.second);
                if (rnd(3) == 0) {
                    e.ov->reset_variable(id.simulator, id.type, id.reference);
                    e.overridden[c] = std::nullopt;
                    break;
                }
                const auto v = derive(mix(x, std::uint64_t(5)), id.type);
                switch (id.type) {
                    case variable_type::real: e.ov->override_real_variable(id.simulator, id.reference, std::get<double>(v)); break;
                    case variable_type::integer: e.ov->override_integer_variable(id.simulator, id.reference, std::get<int>(v)); break;
                    case variable_type::boolean: e.ov->override_boolean_variable(id.simulator, id.reference, std::get<bool>(v)); break;
                    default: e.ov->override_string_variable(id.simulator, id.reference, std::get<std::string>(v));
                }
                e.overridden[c] = v;
                break;
            }
            case user::tuner: {
                switch (rnd(5)) {
                    case 0: config->real_time_simulation = rnd(2) == 0; break;
                    case 1: config->real_time_factor_target = cosim::to_double_duration(e.s.base, time_point()) * (2000 + rnd(100000)); break;
                    case 2: config->steps_to_monitor = 1 + rnd(5); break;
                    case 3: config->sampling_period_to_monitor = std::chrono::milliseconds(rnd(3) - 1); break;
                    default: {
                        const double a = metrics->rolling_average_real_time_factor, b = metrics->total_average_real_time_factor;
                        if (a < 0 || b < 0) u.error = pbt::cat("real time factors ", a, " and ", b);
                    }
                }
                break;
            }
            case user::stopper:
                if (rnd(2) == 0) e.r.exe->stop_simulation();
                else e.over.load(std::memory_order_relaxed) || e.r.exe->is_running();
        }
    }
}

std::string shown(const std::vector<value>& v)
{
    std::string s;
    for (const auto& x : v) s += show(x) + " ";
    return s;
}

void check_lasts(const everything& e, const user& u)
{
    std::vector<long> seen(e.s.slaves.size());
    for (const auto& l : u.lasts) {
        const auto i = static_cast<std::size_t>(l.sim);
        const auto& h = e.front->hist[i];
        const long lo = std::max(l.when.lo, seen[i]);
        const long hi = std::min(l.when.hi, static_cast<long>(h.size()));
        bool found = false;
        for (long k = lo; k <= hi && !found; ++k) {
            bool same = true;
            for (std::size_t j = 0; j < l.vars.size() && same; ++j) {
                const auto want = k == 0 ? default_value(e.s.slaves[i]->var(l.vars[j]).type) : h[static_cast<std::size_t>(k - 1)].values[static_cast<std::size_t>(l.vars[j])];
                same = l.got[j] == want;
            }
            if (same) {
                found = true;
                seen[i] = k;
            }
        }
        if (!found) {
            std::string all;
            for (long k = std::max(1L, lo); k <= hi; ++k) {
                all += pbt::cat("\n  ", k, ": ");
                for (int v : l.vars) all += show(h[static_cast<std::size_t>(k - 1)].values[static_cast<std::size_t>(v)]) + " ";
            }
            pbt::fail("last-value", pbt::cat(e.s.slaves[i]->name, ": values ", shown(l.got), " were read, which are not those of any of the states ", lo, " to ", hi, " (", l.when.lo, " to ", l.when.hi, " by time)", all));
        }
    }
}

void check_series(const everything& e, const user& u)
{
    std::vector<long> seen(e.s.slaves.size());
    for (const auto& q : u.serieses) {
        const auto i = static_cast<std::size_t>(q.sim);
        const auto& h = e.front->hist[i];
        // reads of the same simulator go through the same buffer, though not the one of step numbers
        const long lo = std::max(q.when.lo, seen[i]);
        const long hi = std::min(q.when.hi, static_cast<long>(h.size()));
        bool found = false;
        for (long k = lo; k <= hi && !found; ++k) {
            if (k == 0) {
                found = q.none;
                continue;
            }
            if (q.none) continue;
            std::size_t n = 0;
            bool same = true;
            for (long j = std::max(0L, k - static_cast<long>(e.buffer)); j < k && same; ++j) {
                const auto& st = h[static_cast<std::size_t>(j)];
                if (st.step < q.from || st.step >= q.from + q.n) continue;
                same = n < q.got.size() && q.steps[n] == st.step && q.times[n] == st.t && q.got[n] == st.values[static_cast<std::size_t>(q.var)];
                ++n;
            }
            if (same && n == q.got.size()) {
                found = true;
                seen[i] = k;
            }
        }
        if (!found)
            pbt::fail("time-series", pbt::cat(e.s.slaves[i]->name, "[", q.var, "]: reading ", q.n, " steps from ", q.from, " gave ", q.none ? std::string("nothing") : pbt::cat(q.got.size(), " samples, ", shown(q.got)),
                                          ", which is not right for any of the states ", lo, " to ", hi));
    }
    for (const auto& q : u.numbers) {
        const auto i = static_cast<std::size_t>(q.sim);
        const auto& h = e.front->hist[i];
        const long hi = std::min(q.when.hi, static_cast<long>(h.size()));
        bool found = false;
        for (long k = q.when.lo; k <= hi && !found; ++k) {
            if (k == 0) {
                found = q.first == 0 && q.last == 0;
                continue;
            }
            const auto& last = h[static_cast<std::size_t>(k - 1)];
            const long oldest = std::max(0L, k - static_cast<long>(e.buffer));
            auto first = h[static_cast<std::size_t>(oldest)].step;
            for (long j = oldest; j < k; ++j) {
                if (h[static_cast<std::size_t>(j)].t <= last.t - q.d) first = h[static_cast<std::size_t>(j)].step;
            }
            found = q.last == last.step && q.first == first;
        }
        if (!found) pbt::fail("step-numbers", pbt::cat(e.s.slaves[i]->name, ": steps ", q.first, " to ", q.last, " for ", show(q.d), ", which is not right for any of the states ", q.when.lo, " to ", hi));
    }
    for (const auto& q : u.pairs) {
        const auto &h1 = e.front->hist[static_cast<std::size_t>(q.sim1)], &h2 = e.front->hist[static_cast<std::size_t>(q.sim2)];
        if (q.none) {
            PBT_REQUIRE("synchronized", q.when1.lo == 0 || q.when2.lo == 0, "no samples after ", q.when1.lo, " and ", q.when2.lo, " states");
            continue;
        }
        if (e.buffer < 1000) continue;
        std::size_t n = 0, least = 0;
        for (long j1 = 0, j2 = 0; j1 < std::min<long>(q.when1.hi, static_cast<long>(h1.size())) && j2 < std::min<long>(q.when2.hi, static_cast<long>(h2.size()));) {
            const auto &a = h1[static_cast<std::size_t>(j1)], &b = h2[static_cast<std::size_t>(j2)];
            if (a.step < b.step) {
                ++j1;
                continue;
            }
            if (b.step < a.step) {
                ++j2;
                continue;
            }
            ++j1;
            ++j2;
            if (a.step < q.from || a.step >= q.from + q.n) continue;
            if (j1 <= q.when1.lo && j2 <= q.when2.lo) ++least;
            if (n < q.a.size()) {
                PBT_REQUIRE("synchronized", value(q.a[n]) == a.values[static_cast<std::size_t>(q.var1)] && value(q.b[n]) == b.values[static_cast<std::size_t>(q.var2)], "wrong values for step ", a.step, ": ", q.a[n], " and ", q.b[n]);
            }
            ++n;
        }
        PBT_REQUIRE("synchronized", q.a.size() <= n && q.a.size() >= least, q.a.size(), " samples instead of ", least, " to ", n);
    }
}

void check_files(const everything& e, const filelog::fs::path& dir, const std::vector<toggle>& toggles)
{
    for (std::size_t i = 0; i < e.s.slaves.size(); ++i) {
        const auto& h = e.front->hist[i];
        const auto& d = *e.s.slaves[i];
        std::map<cosim::step_number, std::size_t> index;
        for (std::size_t k = 0; k < h.size(); ++k) index[h[k].step] = k;
        std::vector<int> columns;
        for (int t = 0; t < 4; ++t)
            for (int v = 0; v < d.var_count(); ++v)
                if (static_cast<int>(d.var(v).type) == t && d.var(v).causality != variable_causality::local) columns.push_back(v);
        std::set<std::size_t> recorded;
        if (filelog::fs::exists(dir))
            for (const auto& entry : filelog::fs::directory_iterator(dir)) {
                const auto name = entry.path().filename().string();
                // names of simulators don't begin with each other followed by an underscore and a year
                if (name.rfind(d.name + "_20", 0) != 0 || entry.path().extension() != ".csv") continue;
                const auto recs = filelog::parse_csv(filelog::slurp(entry.path()), name);
                PBT_REQUIRE("file", !recs.empty() && recs[0].size() == columns.size() + 2, name, ": header");
                std::optional<std::size_t> last;
                for (std::size_t l = 1; l < recs.size(); ++l) {
                    PBT_REQUIRE("file", recs[l].size() == columns.size() + 2, name, ": ", recs[l].size(), " fields in line ", l);
                    const auto n = std::strtoll(recs[l][1].c_str(), nullptr, 10);
                    PBT_REQUIRE("file", index.count(n), name, ": step ", recs[l][1]);
                    const auto k = index[n];
                    PBT_REQUIRE("file-order", !last || k == *last + 1, name, ": state ", k, " follows ", *last);
                    last = k;
                    PBT_REQUIRE("file", recorded.insert(k).second, name, ": step ", n, " has been recorded more than once");
                    for (std::size_t v = 0; v < columns.size(); ++v) {
                        const auto& want = h[k].values[static_cast<std::size_t>(columns[v])];
                        const auto& got = recs[l][v + 2];
                        bool same = false;
                        if (auto x = std::get_if<double>(&want)) same = filelog::number_matches(got, *x, -1);
                        else if (auto s = std::get_if<std::string>(&want)) same = got == *s;
                        else if (auto b = std::get_if<bool>(&want)) same = got == (*b ? "1" : "0");
                        else same = got == std::to_string(std::get<int>(want));
                        PBT_REQUIRE("file-value", same, name, ": column ", v + 2, " in step ", n, " is ", pbt::quote(got), ", expected ", show(want));
                    }
                }
            }
        // what must and what must not have been recorded
        bool on = true;
        long surely = 0; // states before this one were reported before the latest toggle had certainly happened
        for (std::size_t k = 0; k <= toggles.size(); ++k) {
            const long until = k < toggles.size() ? toggles[k].when[i].lo : static_cast<long>(h.size());
            for (long j = surely; j < until && j < static_cast<long>(h.size()); ++j) {
                const bool has = recorded.count(static_cast<std::size_t>(j)) > 0;
                PBT_REQUIRE("recording", has == on, d.name, ": state ", j, " has ", has ? "" : "not ", "been recorded between toggles ", k, " and ", k + 1, " of ", toggles.size());
            }
            if (k == toggles.size()) break;
            on = toggles[k].on;
            surely = toggles[k].when[i].hi;
        }
    }
}

void run(pbt::test_case& c)
{
    clear_reports();
    everything e;
    gen_options o;
    o.minSlaves = 1;
    o.maxSlaves = 4;
    o.maxFunctions = 1;
    o.maxFactor = 3;
    o.maxVars = 9;
    o.initialValues = true;
    o.threadCounts = {0, 1, 3};
    e.s = gen_system(c, o);
    // Nothing is to be seen of a simulator which never steps.
    for (auto& d : e.s.slaves)
        if (e.s.factor(static_cast<int>(&d - &e.s.slaves[0])) > 20) {
            d->hint = e.s.base;
            d->explicitFactor = 0;
        }
    c.note(e.s.text());
    const int ns = static_cast<int>(e.s.slaves.size());
    e.r = build(e.s, true);
    e.prog = std::vector<progress>(static_cast<std::size_t>(ns));
    const int jitter = c.chance(60) ? c.irange(1, 100) : 0;
    for (int i = 0; i < ns; ++i) e.r.slaves[static_cast<std::size_t>(i)]->set_jitter(jitter, static_cast<std::uint64_t>(i));
    e.front = std::make_shared<probe>(&e.prog, true);
    e.back = std::make_shared<probe>(&e.prog, false);
    e.lv = std::make_shared<cosim::last_value_observer>();
    if (c.chance(40)) {
        e.buffer = static_cast<std::size_t>(c.irange(1, 8));
        e.ts = std::make_shared<cosim::time_series_observer>(e.buffer);
    } else e.ts = std::make_shared<cosim::time_series_observer>();
    e.ov = std::make_shared<cosim::override_manipulator>();
    const auto dir = filelog::fs::path(pbt::scratch()) / "log";
    filelog::fs::remove_all(dir);
    const bool files = c.chance(60);
    e.r.exe->add_observer(e.front);
    if (files) {
        e.file = std::make_shared<cosim::file_observer>(dir);
        e.r.exe->add_observer(e.file);
    }
    e.r.exe->add_observer(e.ts);
    e.r.exe->add_observer(e.lv);
    e.r.exe->add_observer(e.back);
    e.r.exe->add_manipulator(e.ov);
    for (int i = 0; i < ns; ++i)
        for (int v = 0; v < e.s.slaves[static_cast<std::size_t>(i)]->var_count(); ++v) {
            const auto& d = e.s.slaves[static_cast<std::size_t>(i)]->var(v);
            if ((d.type == variable_type::real || d.type == variable_type::integer) && c.chance(70)) {
                e.ts->start_observing(e.s.vid(i, v));
                e.observed.emplace_back(i, v);
            }
            if (manip::modifiable(d.causality) && c.chance(60)) e.candidates.emplace_back(i, v);
        }
    const int steps = c.irange(2, c.sized(15, 80));
    std::vector<user> users;
    const int nu = c.irange(1, 4);
    bool overriding = false, recording = false, stopping = false;
    for (int i = 0; i < nu; ++i) {
        user u;
        u.kind = static_cast<user::kind_t>(c.weighted({6, 6, 5, 4, 1, 2}));
        if (u.kind == user::recorder && (recording || !files)) u.kind = user::last;
        if (u.kind == user::overrider && overriding) u.kind = user::series;
        recording = recording || u.kind == user::recorder;
        overriding = overriding || u.kind == user::overrider;
        stopping = stopping || u.kind == user::stopper;
        u.seed = c.draw(1000000);
        u.calls = c.irange(1, u.kind == user::stopper ? 15 : u.kind == user::recorder ? c.sized(15, 60) : c.sized(20, 120));
        u.pauseUs = c.one_of<int>({0, 0, 20, 100, 400});
        c.note(pbt::cat("another thread ", kind_names[u.kind], " (", u.calls, " calls, pauses of up to ", u.pauseUs, " us)"));
        c.label(kind_names[u.kind]);
        users.push_back(u);
    }
    const bool async = c.chance(40);
    const auto end = e.s.start + e.s.base * steps;
    c.note(pbt::cat(steps, " steps", jitter ? " with delays" : "", async ? ", asynchronously" : ""));

    // With the default target, a step would take its base step size.
    e.r.exe->get_real_time_config()->real_time_factor_target = cosim::to_double_duration(e.s.base, time_point()) * 2000;

    std::vector<std::thread> threads;
    for (auto& u : users)
        threads.emplace_back([&e, &u] {
            try {
                use(e, u);
            } catch (const std::exception& x) {
                u.error = pbt::cat(kind_names[u.kind], ": ", x.what());
            }
        });
    int interruptions = 0;
    std::string error;
    try {
        while (e.r.exe->current_time() < end) {
            const auto before = e.r.exe->current_time();
            const bool finished = async ? e.r.exe->simulate_until_async(end).get() : e.r.exe->simulate_until(end);
            if (finished != (e.r.exe->current_time() == end) && !stopping) error = "simulate_until has returned early";
            if (!finished) ++interruptions;
            if (e.r.exe->current_time() == before) error = "no progress";
        }
    } catch (const std::exception& x) {
        error = x.what();
    }
    e.over.store(true, std::memory_order_relaxed);
    for (auto& t : threads) t.join();
    if (!error.empty()) pbt::fail("simulation", error);
    check_reports();
    PBT_REQUIRE("end", e.r.exe->current_time() == end, show(e.r.exe->current_time()));
    for (int i = 0; i < ns; ++i) {
        const int f = e.s.factor(i);
        const auto& h = e.front->hist[static_cast<std::size_t>(i)];
        PBT_REQUIRE("steps", static_cast<int>(h.size()) == 1 + steps / f, e.s.slaves[static_cast<std::size_t>(i)]->name, ": ", h.size(), " states in ", steps, " steps with factor ", f);
    }
    std::vector<toggle> toggles;
    bool overlapped = false;
    const auto during = [&](int sim, const span_of_states& w) {
        return w.lo > 0 && w.hi < static_cast<long>(e.front->hist[static_cast<std::size_t>(sim)].size());
    };
    for (const auto& u : users) {
        if (!u.error.empty()) pbt::fail("call", u.error);
        check_lasts(e, u);
        check_series(e, u);
        if (u.kind == user::recorder) toggles = u.toggles;
        for (const auto& l : u.lasts) overlapped = overlapped || during(l.sim, l.when);
        for (const auto& l : u.serieses) overlapped = overlapped || during(l.sim, l.when);
        for (const auto& t : u.toggles) overlapped = overlapped || during(0, t.when[0]);
    }
    // Eventually, the last request made for each variable is in effect.
    if (overriding) {
        int longest = 1;
        for (int i = 0; i < ns; ++i) longest *= e.s.factor(i);
        auto config = e.r.exe->get_real_time_config();
        config->real_time_simulation = false;
        for (int k = 0; k < 2 * longest; ++k) e.r.exe->step();
        for (const auto& [var, v] : e.overridden) {
            if (!v) continue;
            const auto& d = e.s.slaves[static_cast<std::size_t>(var.first)]->var(var.second);
            std::vector<value> got;
            const std::vector<cosim::value_reference> refs{d.reference};
            const int i = var.first;
            switch (d.type) {
                case variable_type::real: get_typed<double>([&](auto r, auto x) { e.lv->get_real(i, r, x); }, refs, got); break;
                case variable_type::integer: get_typed<int>([&](auto r, auto x) { e.lv->get_integer(i, r, x); }, refs, got); break;
                case variable_type::boolean: get_typed<bool>([&](auto r, auto x) { e.lv->get_boolean(i, r, x); }, refs, got); break;
                default: get_typed<std::string>([&](auto r, auto x) { e.lv->get_string(i, r, x); }, refs, got);
            }
            c.label("override in effect");
            PBT_REQUIRE("override-lost", got[0] == *v, e.s.slaves[static_cast<std::size_t>(i)]->name, "[", var.second, "] (", d.causality, ") is ", show(got[0]), ", although it has been overridden with ", show(*v));
        }
    }
    e.r.exe.reset();
    e.file.reset();
    if (files) check_files(e, dir, toggles);
    check_reports();
    if (interruptions) c.label("interrupted");
    if (overlapped) c.nontrivial();
}

} // namespace

int main(int argc, char** argv)
{
    pbt::spec s;
    s.id = "C34";
    s.rule =
        "Cases are generated systems run in one thread while 1-4 others query last-value and time-series observers, toggle file recording, override and reset variables, change real-time settings and stop the simulation, under ThreadSanitizer. "
        "All that was read or recorded is compared with the history of states noted by an observer, within the states that may have been current when the call was made; overrides must be in effect at the end. "
        "Non-trivial: at least one query or toggle took place while the simulation was under way.";
    s.quick_cases = 5000;
    s.workers = 24;
    s.thorough_cases = 200000;
    s.hang_seconds = 60;
    s.attempts = 40;
    s.sound_tags = {"tsan:", "last-value", "time-series", "step-numbers", "synchronized", "override-lost", "file", "recording"};
    s.setup = setup_process;
    s.run = run;
    return pbt::main(argc, argv, s);
}
