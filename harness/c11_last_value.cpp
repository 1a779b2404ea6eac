#include "sim.hpp"

#include <cosim/observer/last_value_observer.hpp>

using namespace sim;

namespace
{
template<typename T>
std::vector<value> query(cosim::last_value_observer& o, int sim, const std::vector<cosim::value_reference>& refs)
{
    const auto n = refs.size();
    auto vals = std::make_unique<T[]>(n + 1);
    gsl::span<T> out(vals.get(), n);
    if constexpr (std::is_same_v<T, double>) o.get_real(sim, gsl::make_span(refs), out);
    if constexpr (std::is_same_v<T, int>) o.get_integer(sim, gsl::make_span(refs), out);
    if constexpr (std::is_same_v<T, bool>) o.get_boolean(sim, gsl::make_span(refs), out);
    if constexpr (std::is_same_v<T, std::string>) o.get_string(sim, gsl::make_span(refs), out);
    std::vector<value> r;
    for (std::size_t i = 0; i < n; ++i) r.emplace_back(vals[i]);
    return r;
}

std::vector<value> query(cosim::last_value_observer& o, int sim, variable_type t, const std::vector<cosim::value_reference>& refs)
{
    switch (t) {
        case variable_type::real: return query<double>(o, sim, refs);
        case variable_type::integer: return query<int>(o, sim, refs);
        case variable_type::boolean: return query<bool>(o, sim, refs);
        default: return query<std::string>(o, sim, refs);
    }
}

void run(pbt::test_case& c)
{
    clear_reports();
    gen_options o;
    o.maxSlaves = 4;
    o.maxFunctions = 1;
    o.maxFactor = 4;
    o.maxVars = 12;
    o.initialValues = true;
    o.threadCounts = {0, 0, 1, 3};
    auto s = gen_system(c, o);
    c.note(s.text());
    const int ns = static_cast<int>(s.slaves.size());
    auto r = build(s, true);
    model m(s);
    struct observing
    {
        std::shared_ptr<cosim::last_value_observer> o;
        long since;
        // expected values; unknown while the slave is in the middle of a step when the observer was added
        std::vector<std::optional<std::vector<value>>> want;
    };
    std::vector<observing> obs;
    long n = 0;
    bool init = false;
    auto snapshot = [&](int i) {
        std::vector<value> v;
        for (int k = 0; k < s.slaves[i]->var_count(); ++k) v.push_back(m.read(i, k));
        return v;
    };
    auto add = [&] {
        observing b;
        b.o = std::make_shared<cosim::last_value_observer>();
        b.since = n;
        b.want.resize(ns);
        r.exe->add_observer(b.o);
        if (init) {
            c.label("observer added during the simulation");
            for (int i = 0; i < ns; ++i) {
                if (n % m.factor(i) == 0) b.want[i] = snapshot(i);
            }
        }
        c.note(pbt::cat("add observer ", obs.size(), " after ", n, " steps"));
        obs.push_back(b);
    };
    auto check_all = [&](observing& b) {
        for (int i = 0; i < ns; ++i) {
            if (!b.want[i]) continue;
            for (int t = 0; t < 4; ++t) {
                std::vector<int> vars;
                for (int k = 0; k < s.slaves[i]->var_count(); ++k) {
                    if (static_cast<int>(s.slaves[i]->var(k).type) == t) vars.push_back(k);
                }
                if (vars.empty()) continue;
                // in some order, some of them several times, some not at all
                c.shuffle(vars);
                if (c.chance(30)) vars.push_back(vars[0]);
                if (c.chance(30)) vars.erase(vars.begin());
                std::vector<cosim::value_reference> refs;
                for (int k : vars) refs.push_back(s.slaves[i]->var(k).reference);
                const auto got = query(*b.o, i, static_cast<variable_type>(t), refs);
                for (std::size_t k = 0; k < vars.size(); ++k) {
                    const auto& want = (*b.want[i])[vars[k]];
                    PBT_REQUIRE("value", got[k] == want, "observer ", &b - obs.data(), ": ", s.slaves[i]->name, "[", vars[k], "] (", s.slaves[i]->var(vars[k]).causality, ") is ", show(got[k]), " after ", n,
                        " steps, expected ", show(want));
                }
            }
        }
    };
    auto check_errors = [&](observing& b) {
        const int i = c.irange(0, ns - 1);
        const auto t = static_cast<variable_type>(c.draw(3));
        bool threw = false;
        std::vector<cosim::value_reference> refs;
        int sim = i;
        if (c.chance(50)) {
            sim = c.chance(50) ? ns + c.irange(0, 1) : -1;
            refs.push_back(0);
        } else {
            for (int k = 0; k < s.slaves[i]->var_count(); ++k) {
                if (s.slaves[i]->var(k).type == t && c.chance(50)) refs.push_back(s.slaves[i]->var(k).reference);
            }
            cosim::value_reference bad = static_cast<cosim::value_reference>(c.draw(9));
            while (s.slaves[i]->find(t, bad) >= 0) ++bad;
            refs.push_back(bad);
        }
        try {
            query(*b.o, sim, t, refs);
        } catch (const std::exception&) {
            threw = true;
        }
        PBT_REQUIRE("unknown-accepted", threw, "no error for an unknown variable or simulator ", sim);
    };
    if (c.chance(70)) add();
    c.repeat(1, 14, 6, [&](int) {
        switch (c.weighted({60, 15, 25})) {
            case 0: {
                const int k = c.irange(1, 4);
                c.note(pbt::cat(k, " steps"));
                if (c.chance(50)) {
                    for (int j = 0; j < k; ++j) r.exe->step();
                } else {
                    r.exe->simulate_until(s.start + s.base * (n + k));
                }
                for (int j = 0; j < k; ++j) {
                    if (!init) {
                        m.initialize();
                        init = true;
                        for (auto& b : obs) {
                            for (int i = 0; i < ns; ++i) b.want[i] = snapshot(i);
                        }
                    }
                    m.step();
                    ++n;
                    for (auto& b : obs) {
                        for (int i : m.finished()) b.want[i] = snapshot(i);
                    }
                }
                check_reports();
                for (auto& b : obs) check_all(b);
                break;
            }
            case 1:
                if (obs.size() < 4) add();
                break;
            default:
                if (!obs.empty()) check_errors(c.pick(obs));
        }
    });
    for (auto& b : obs) check_all(b);
    if (n >= 2 && !obs.empty()) c.nontrivial();
    for (int i = 0; i < ns; ++i) {
        if (m.factor(i) > 1) c.label("decimated simulator");
    }
}
} // namespace

int main(int argc, char** argv)
{
    pbt::spec s;
    s.id = "C11";
    s.rule = "a generated system with last-value observers added at random times, queried after random numbers of steps for variables of all types in random order, repeatedly and partly, with invalid queries in between; non-trivial: an observer and at least two base steps";
    s.quick_cases = 60000;
    s.thorough_cases = 1500000;
    s.setup = setup_process;
    s.run = run;
    return pbt::main(argc, argv, s);
}
