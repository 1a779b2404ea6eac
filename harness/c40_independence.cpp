// C40: what happens to a part of a simulation depends on nothing but that part.
#include "sim.hpp"

#include <cosim/manipulator/override_manipulator.hpp>
#include <cosim/observer/last_value_observer.hpp>
#include <cosim/observer/time_series_observer.hpp>

#include <algorithm>
#include <thread>

using namespace sim;

namespace
{
// Where the parts' simulators and functions have got to in the execution.
struct placement
{
    std::vector<int> sims[2], funs[2];
};

struct world
{
    // The slaves are dropped before anything that they refer to.
    std::shared_ptr<cosim::fixed_step_algorithm> algo;
    std::unique_ptr<cosim::execution> exe;
    std::vector<std::shared_ptr<rec_slave>> slaves[2];
    std::vector<std::shared_ptr<cosim::function>> funs;
    placement at;
};

cosim::variable_id vid(const sysdef& s, const std::vector<int>& sims, int sim, int var)
{
    const auto& v = s.slaves[sim]->var(var);
    return {sims[sim], v.type, v.reference};
}

void set_initial(cosim::execution& e, int sim, cosim::value_reference ref, const value& v)
{
    switch (type_of(v)) {
        case variable_type::real: e.set_real_initial_value(sim, ref, std::get<double>(v)); break;
        case variable_type::integer: e.set_integer_initial_value(sim, ref, std::get<int>(v)); break;
        case variable_type::boolean: e.set_boolean_initial_value(sim, ref, std::get<bool>(v)); break;
        default: e.set_string_initial_value(sim, ref, std::get<std::string>(v)); break;
    }
}

/// From the watched part to the other one.
struct link
{
    int src, srcVar, tgt, tgtVar;
};

/// Calls which do not influence the watched part.
class bystander
{
public:
    bystander(pbt::test_case& c, world& w, const sysdef& s1, const sysdef& s2)
        : c_(c)
        , w_(w)
        , s_{&s1, &s2}
    { }

    void before()
    {
        if (c_.chance(50)) {
            over_ = std::make_shared<cosim::override_manipulator>();
            w_.exe->add_manipulator(over_);
        }
        while (c_.chance(40)) observe();
    }

    void act()
    {
        switch (c_.draw(5)) {
            case 0: observe(); break;
            case 1: query(); break;
            case 2:
            case 3: disturb(); break;
            case 4: watch(); break;
            case 5: disconnect(); break;
        }
    }

    void drop()
    {
        last_.clear();
        series_.clear();
        recs_.clear();
        over_.reset();
    }

    bool disturbed = false, observed = false;

private:
    struct target
    {
        int part, sim, var;
    };
    target any(int part)
    {
        target t{part, 0, 0};
        const auto& s = *s_[part];
        t.sim = c_.irange(0, static_cast<int>(s.slaves.size()) - 1);
        t.var = s.slaves[t.sim]->var_count() ? c_.irange(0, s.slaves[t.sim]->var_count() - 1) : -1;
        return t;
    }

    void observe()
    {
        observed = true;
        switch (c_.draw(2)) {
            case 0:
                last_.push_back(std::make_shared<cosim::last_value_observer>());
                w_.exe->add_observer(last_.back());
                c_.note("last_value_observer");
                break;
            case 1:
                series_.push_back(std::make_shared<cosim::time_series_observer>(static_cast<std::size_t>(c_.irange(1, 5))));
                w_.exe->add_observer(series_.back());
                c_.note("time_series_observer");
                break;
            case 2:
                recs_.push_back(std::make_shared<rec_observer>());
                w_.exe->add_observer(recs_.back());
                c_.note("observer of everything");
                break;
        }
    }

    void query()
    {
        if (last_.empty()) return;
        const auto t = any(c_.irange(0, 1));
        if (t.var < 0) return;
        const auto& v = s_[t.part]->slaves[t.sim]->var(t.var);
        const auto index = w_.at.sims[t.part][t.sim];
        auto& o = *c_.pick(last_);
        c_.note("query");
        const cosim::value_reference r[1] = {v.reference};
        try {
            if (v.type == variable_type::real) {
                double x[1];
                o.get_real(index, r, x);
            } else if (v.type == variable_type::integer) {
                int x[1];
                o.get_integer(index, r, x);
            } else if (v.type == variable_type::boolean) {
                bool x[1];
                o.get_boolean(index, r, x);
            } else if (v.type == variable_type::string) {
                std::string x[1];
                o.get_string(index, r, x);
            }
        } catch (const std::exception&) {
        }
    }

    void watch()
    {
        if (series_.empty()) return;
        const auto t = any(c_.irange(0, 1));
        if (t.var < 0) return;
        auto& o = *c_.pick(series_);
        const auto id = vid(*s_[t.part], w_.at.sims[t.part], t.sim, t.var);
        c_.note(pbt::cat("time series of ", id));
        try {
            if (c_.chance(70)) o.start_observing(id);
            else o.stop_observing(id);
        } catch (const std::exception&) {
        }
    }

    void disturb()
    {
        if (!over_) return;
        const auto t = any(1);
        if (t.var < 0) return;
        const auto& v = s_[1]->slaves[t.sim]->var(t.var);
        const auto index = w_.at.sims[1][t.sim];
        disturbed = true;
        try {
            if (c_.chance(25)) {
                c_.note(pbt::cat("reset of ", s_[1]->slaves[t.sim]->name, " ", v.name));
                over_->reset_variable(index, v.type, v.reference);
                return;
            }
            c_.note(pbt::cat("override of ", s_[1]->slaves[t.sim]->name, " ", v.name));
            const auto x = gen_value(c_, v.type);
            switch (type_of(x)) {
                case variable_type::real: over_->override_real_variable(index, v.reference, std::get<double>(x)); break;
                case variable_type::integer: over_->override_integer_variable(index, v.reference, std::get<int>(x)); break;
                case variable_type::boolean: over_->override_boolean_variable(index, v.reference, std::get<bool>(x)); break;
                default: over_->override_string_variable(index, v.reference, std::get<std::string>(x)); break;
            }
        } catch (const std::exception&) {
        }
    }

    void disconnect()
    {
        const auto t = any(1);
        if (t.var < 0) return;
        const auto& v = s_[1]->slaves[t.sim]->var(t.var);
        if (v.causality != variable_causality::input) return;
        disturbed = true;
        c_.note(pbt::cat("disconnection of ", s_[1]->slaves[t.sim]->name, " ", v.name));
        w_.algo->disconnect_variable(vid(*s_[1], w_.at.sims[1], t.sim, t.var));
    }

    pbt::test_case& c_;
    world& w_;
    const sysdef* s_[2];
    std::shared_ptr<cosim::override_manipulator> over_;
    std::vector<std::shared_ptr<cosim::last_value_observer>> last_;
    std::vector<std::shared_ptr<cosim::time_series_observer>> series_;
    std::vector<std::shared_ptr<rec_observer>> recs_;
};

/// Puts the parts together in a random order.
void assemble(pbt::test_case& c, world& w, const sysdef& s1, const sysdef& s2, const std::vector<link>& links, const std::optional<unsigned>& threads)
{
    const sysdef* s[2] = {&s1, &s2};
    w.algo = std::make_shared<cosim::fixed_step_algorithm>(s1.base, threads);
    w.exe = std::make_unique<cosim::execution>(s1.start, w.algo);
    struct item
    {
        int part;
        bool fun;
        int i;
    };
    std::vector<item> items;
    for (int p : {0, 1}) {
        for (int i = 0; i < static_cast<int>(s[p]->slaves.size()); ++i) items.push_back({p, false, i});
        for (int i = 0; i < static_cast<int>(s[p]->funs.size()); ++i) items.push_back({p, true, i});
        w.slaves[p].resize(s[p]->slaves.size());
        w.at.sims[p].resize(s[p]->slaves.size());
        w.at.funs[p].resize(s[p]->funs.size());
    }
    c.shuffle(items);
    for (auto& x : items) {
        if (x.fun) {
            w.funs.push_back(make_function(*s[x.part]->funs[x.i]));
            w.at.funs[x.part][x.i] = w.exe->add_function(w.funs.back());
        } else {
            auto& d = *s[x.part]->slaves[x.i];
            auto sl = std::make_shared<rec_slave>(&d);
            w.slaves[x.part][x.i] = sl;
            const auto index = w.exe->add_slave(sl, d.name, d.hint);
            w.at.sims[x.part][x.i] = index;
            if (d.explicitFactor) w.algo->set_stepsize_decimation_factor(index, d.explicitFactor);
        }
    }
    std::vector<std::function<void()>> acts;
    std::size_t next[2] = {};
    for (int p : {0, 1}) {
        auto& q = *s[p];
        const auto& sims = w.at.sims[p];
        const auto& funs = w.at.funs[p];
        auto& e = *w.exe;
        for (auto& k : q.ss) acts.push_back([&] { e.connect_variables(vid(q, sims, k.src, k.srcVar), vid(q, sims, k.tgt, k.tgtVar)); });
        for (auto& k : q.sf) acts.push_back([&] { e.connect_variables(vid(q, sims, k.src, k.srcVar), cosim::function_io_id{funs[k.fun], k.io.type, k.io.ref.ref()}); });
        for (auto& k : q.fs) acts.push_back([&] { e.connect_variables(cosim::function_io_id{funs[k.fun], k.io.type, k.io.ref.ref()}, vid(q, sims, k.tgt, k.tgtVar)); });
        // the latest value for a variable counts, so these keep their order
        auto& n = next[p];
        for (std::size_t i = 0; i < q.initial.size(); ++i) {
            acts.push_back([&] {
                auto& v = q.initial[n++];
                set_initial(e, sims[v.sim], q.slaves[v.sim]->var(v.var).reference, v.val);
            });
        }
    }
    for (auto& k : links) acts.push_back([&] { w.exe->connect_variables(vid(s1, w.at.sims[0], k.src, k.srcVar), vid(s2, w.at.sims[1], k.tgt, k.tgtVar)); });
    c.shuffle(acts);
    for (auto& a : acts) a();
}

void run(pbt::test_case& c)
{
    clear_reports();
    gen_options o;
    o.minSlaves = 1;
    o.maxSlaves = 4;
    o.maxFunctions = 2;
    o.maxVars = 6;
    o.maxFactor = 4;
    o.initialValues = true;
    auto s1 = gen_system(c, o);
    auto s2 = gen_system(c, o);
    s2.base = s1.base;
    s2.start = s1.start;
    for (auto& d : s2.slaves) {
        // the same name is not allowed, anything else is
        d->name = c.chance(50) ? d->name + "'" : "a" + d->name;
        if (c.chance(50)) {
            d->hint = s1.base * c.irange(0, 5);
            d->explicitFactor = c.chance(50) ? c.irange(0, 4) : 0;
        }
    }
    std::vector<link> links;
    for (int n = c.chance(50) ? c.irange(1, 4) : 0; n > 0; --n) {
        link k;
        k.src = c.irange(0, static_cast<int>(s1.slaves.size()) - 1);
        k.tgt = c.irange(0, static_cast<int>(s2.slaves.size()) - 1);
        const auto outs = s1.slaves[k.src]->vars({variable_causality::output, variable_causality::calculated_parameter});
        const auto ins = s2.slaves[k.tgt]->vars({variable_causality::input});
        if (outs.empty() || ins.empty()) continue;
        k.srcVar = c.pick(outs);
        std::vector<int> fit;
        for (int v : ins) {
            bool used = s2.input_used(k.tgt, v);
            for (auto& x : links) used = used || (x.tgt == k.tgt && x.tgtVar == v);
            if (!used && s2.slaves[k.tgt]->var(v).type == s1.slaves[k.src]->var(k.srcVar).type) fit.push_back(v);
        }
        if (fit.empty()) continue;
        k.tgtVar = c.pick(fit);
        links.push_back(k);
    }
    c.note("--- watched part\n" + s1.text());
    c.note("--- other part\n" + s2.text());
    for (auto& k : links) c.note(pbt::cat(s1.slaves[k.src]->name, "[", k.srcVar, "] -> ", s2.slaves[k.tgt]->name, "[", k.tgtVar, "]"));
    const unsigned counts[] = {0, 0, 1, 2, 4};
    const std::optional<unsigned> threads = counts[c.draw(4)];
    c.note(pbt::cat(*threads, " worker threads"));

    // Another execution of both, at the same time.
    const bool twin = c.chance(40), parallel = twin && c.chance(50);
    const int steps = c.irange(1, 12);
    world w;
    assemble(c, w, s1, s2, links, threads);
    world x;
    if (twin) assemble(c, x, s1, s2, links, 0u);
    std::thread other;
    std::atomic<bool> otherFailed{false};
    if (parallel) other = std::thread([&] {
        try {
            for (int i = 0; i < steps; ++i) x.exe->step();
        } catch (...) {
            otherFailed = true;
        }
    });
    struct joiner
    {
        std::thread& t;
        ~joiner()
        {
            if (t.joinable()) t.join();
        }
    } j{other};

    bystander b(c, w, s1, s2);
    b.before();
    int done = 0, twinDone = 0;
    while (done < steps) {
        if (c.chance(40)) b.act();
        if (twin && !parallel && twinDone < steps && c.chance(50)) {
            x.exe->step();
            ++twinDone;
        }
        if (c.chance(60)) {
            w.exe->step();
            ++done;
        } else {
            const int n = c.irange(0, steps - done);
            c.note(pbt::cat("until step ", done + n));
            if (n == 0) continue;
            PBT_REQUIRE("until", w.exe->simulate_until(s1.start + s1.base * (done + n)), "false");
            done += n;
        }
    }
    if (other.joinable()) other.join();
    while (twin && !parallel && twinDone < steps) {
        x.exe->step();
        ++twinDone;
    }
    PBT_REQUIRE("twin", !otherFailed, "the other execution failed");
    check_reports();

    // The watched part alone, according to the reference interpreter
    model m(s1);
    for (int i = 0; i < steps; ++i) m.step();
    auto compare = [&](const world& v, const std::string& tag) {
        running r;
        r.slaves = v.slaves[0];
        compare_steps(s1, r, m, tag);
        for (std::size_t i = 0; i < r.slaves.size(); ++i) {
            int n[6] = {};
            const event* start = nullptr;
            for (auto& e : r.slaves[i]->log()) {
                ++n[static_cast<int>(e.kind)];
                if (e.kind == call::start) start = &e;
            }
            PBT_REQUIRE(tag + "-start", start && n[static_cast<int>(call::setup)] == 1 && n[static_cast<int>(call::start)] == 1, s1.slaves[i]->name, " was not started exactly once");
            for (int k = 0; k < s1.slaves[i]->var_count(); ++k)
                PBT_REQUIRE(tag + "-start", start->snapshot[k] == m.atStart[i][k], s1.slaves[i]->name, " variable [", k, "] at the start: got ", show(start->snapshot[k]), ", expected ", show(m.atStart[i][k]));
            // nothing is set but what some connection or initial value leads to
            std::set<int> sets;
            for (auto& e : r.slaves[i]->log())
                for (auto& [k, val] : e.sets) sets.insert(k);
            for (int k : sets) PBT_REQUIRE(tag + "-set", m.written[i].count(k), s1.slaves[i]->name, " variable [", k, "] was set");
        }
    };
    compare(w, "part");
    if (twin) {
        compare(x, "twin");
        if (!b.disturbed) {
            // then the other parts are alike, too
            for (std::size_t i = 0; i < s2.slaves.size(); ++i) {
                const auto p = w.slaves[1][i]->steps(), q = x.slaves[1][i]->steps();
                PBT_REQUIRE("alike", p.size() == q.size(), s2.slaves[i]->name, ": ", p.size(), " and ", q.size(), " steps");
                for (std::size_t k = 0; k < p.size(); ++k)
                    PBT_REQUIRE("alike", p[k].t == q[k].t && p[k].dt == q[k].dt && p[k].snapshot == q[k].snapshot, s2.slaves[i]->name, ": step ", k, " depends on the order of things");
            }
        }
    }

    // Everything is let go of in the end.
    std::vector<std::weak_ptr<void>> gone;
    for (auto& v : w.slaves[0]) gone.push_back(v);
    for (auto& v : w.slaves[1]) gone.push_back(v);
    for (auto& f : w.funs) gone.push_back(f);
    const bool observersFirst = c.chance(50);
    if (observersFirst) b.drop();
    if (c.chance(50)) w.algo.reset();
    w.exe.reset();
    w.algo.reset();
    check_reports();
    w.slaves[0].clear();
    w.slaves[1].clear();
    w.funs.clear();
    b.drop();
    for (auto& g : gone) PBT_REQUIRE("released", g.expired(), "a slave or function is still referred to after the execution is gone");

    c.label(twin ? parallel ? "two executions in parallel" : "two executions in turn" : "one execution");
    if (b.disturbed) c.label("other part disturbed");
    if (b.observed) c.label("observed");
    if (!links.empty()) c.label("watched part feeds the other");
    if (steps > 2 && !(s1.ss.empty() && s1.sf.empty() && s1.fs.empty()) && (b.disturbed || b.observed || !links.empty() || twin)) c.nontrivial();
}
} // namespace

int main(int argc, char** argv)
{
    pbt::spec s;
    s.id = "C40";
    s.rule = "two generated systems are put into one execution in a random order, possibly with connections from the first to the second, observed, the second one disturbed by overrides and disconnections, stepped in various ways with various numbers of threads, possibly next to another execution of the same; the first one's slaves must see what the reference interpreter predicts for it alone, and everything must be released; non-trivial: more than two steps, connections in the first system, and some such influence";
    s.quick_cases = 60000;
    s.thorough_cases = 1500000;
    s.hang_seconds = 40;
    s.attempts = 10;
    s.setup = setup_process;
    s.run = run;
    return pbt::main(argc, argv, s);
}
