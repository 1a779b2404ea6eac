// Generated modifications of variables, for the checks of manipulators.
#ifndef MANIP_HPP
#define MANIP_HPP

#include "sim.hpp"

#include <cosim/manipulator.hpp>
#include <cosim/scenario.hpp>

#include <map>
#include <variant>

namespace manip
{
using namespace sim;

/// A modification: a pure function of the original value and the step size, or a reset.
struct mod
{
    model::modifier f;
    std::string text;
};

inline mod gen_constant(pbt::test_case& c, variable_type t)
{
    const auto v = gen_value(c, t);
    return {[v](const value&, duration) { return v; }, pbt::cat("override with ", show(v))};
}

inline mod gen_mod(pbt::test_case& c, variable_type t, int resetPercent)
{
    if (c.chance(resetPercent)) return {nullptr, "reset"};
    if (c.chance(50)) return gen_constant(c, t);
    const auto salt = c.draw(1000);
    return {[salt, t](const value& v, duration d) { return derive(mix(mix(salt, v), static_cast<std::uint64_t>(d.count())), t); }, pbt::cat("function #", salt)};
}

template<typename T, typename Arg>
std::function<T(Arg, duration)> typed(const mod& m)
{
    if (!m.f) return nullptr;
    return [f = m.f](Arg v, duration d) -> T { return std::get<T>(f(value(T(v)), d)); };
}

inline auto scenario_modifier(const mod& m, variable_type t)
    -> std::variant<cosim::scenario::real_modifier, cosim::scenario::integer_modifier, cosim::scenario::boolean_modifier, cosim::scenario::string_modifier>
{
    switch (t) {
        case variable_type::real: return cosim::scenario::real_modifier{typed<double, double>(m)};
        case variable_type::integer: return cosim::scenario::integer_modifier{typed<int, int>(m)};
        case variable_type::boolean: return cosim::scenario::boolean_modifier{typed<bool, bool>(m)};
        default: return cosim::scenario::string_modifier{typed<std::string, std::string_view>(m)};
    }
}

inline bool is_input(variable_causality c) { return c == variable_causality::input || c == variable_causality::parameter; }
inline bool modifiable(variable_causality c)
{
    return is_input(c) || c == variable_causality::output || c == variable_causality::calculated_parameter;
}

/// All variables that may be modified.
inline std::vector<std::pair<int, int>> modifiable_vars(const sysdef& s)
{
    std::vector<std::pair<int, int>> r;
    for (int i = 0; i < static_cast<int>(s.slaves.size()); ++i) {
        for (int v = 0; v < s.slaves[i]->var_count(); ++v) {
            if (modifiable(s.slaves[i]->var(v).causality)) r.push_back({i, v});
        }
    }
    return r;
}

/// The modifications in force, kept along with the model.
class state
{
public:
    state(const sysdef& s, model& m)
        : s_(s)
        , m_(m)
    { }

    void apply(std::pair<int, int> v, const mod& d)
    {
        if (is_input(s_.slaves[v.first]->var(v.second).causality)) {
            m_.set_input_modifier(v.first, v.second, d.f);
        } else if (d.f) {
            m_.outMod[v] = d.f;
        } else {
            m_.outMod.erase(v);
        }
        if (d.f) {
            active.insert(v);
        } else {
            active.erase(v);
        }
    }
    std::set<std::pair<int, int>> active;

private:
    const sysdef& s_;
    model& m_;
};

inline void check_modified(const sysdef& s, const running& r, const state& st)
{
    using key = std::tuple<int, int, cosim::value_reference>;
    std::set<key> got, want;
    for (const auto& v : r.exe->get_modified_variables()) {
        PBT_REQUIRE("modified-duplicate", got.insert({v.simulator, static_cast<int>(v.type), v.reference}).second, "get_modified_variables() lists (", v.simulator, ", ", v.type, ", ", v.reference, ") more than once");
    }
    for (const auto& v : st.active) {
        const auto id = s.vid(v.first, v.second);
        want.insert({id.simulator, static_cast<int>(id.type), id.reference});
    }
    for (const auto& k : got) {
        PBT_REQUIRE("modified-extra", want.count(k), "get_modified_variables() lists (", std::get<0>(k), ", ", static_cast<variable_type>(std::get<1>(k)), ", ", std::get<2>(k), "), which is not modified");
    }
    for (const auto& k : want) {
        PBT_REQUIRE("modified-missing", got.count(k), "get_modified_variables() does not list (", std::get<0>(k), ", ", static_cast<variable_type>(std::get<1>(k)), ", ", std::get<2>(k), ")");
    }
}

/// Compares what the observer saw at the step that was just taken with the model.
inline void check_observed(const sysdef& s, const rec_observer& o, const model& m)
{
    std::set<int> seen;
    for (auto it = o.log.rbegin(); it != o.log.rend(); ++it) {
        if (it == o.log.rbegin()) {
            PBT_REQUIRE("observed", it->kind == note::step, "last notification is ", show(*it));
            continue;
        }
        if (it->kind != note::sim_step) break;
        seen.insert(it->sim);
        for (int v = 0; v < s.slaves[it->sim]->var_count(); ++v) {
            const auto want = m.read(it->sim, v);
            PBT_REQUIRE("observed-value", it->values.at(v) == want, s.slaves[it->sim]->name, "[", v, "] (", s.slaves[it->sim]->var(v).causality, ") reads as ", show(it->values[v]), " after step ", m.steps(), ", expected ", show(want));
        }
    }
    const auto f = m.finished();
    PBT_REQUIRE("observed", seen == std::set<int>(f.begin(), f.end()), "wrong set of simulators reported after step ", m.steps());
}
} // namespace manip
#endif
