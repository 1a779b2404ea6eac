#include "manip.hpp"

#include <cosim/manipulator/override_manipulator.hpp>

using namespace manip;

namespace
{
/// Applies arbitrary modifiers when told to.
class free_manipulator : public cosim::manipulator
{
public:
    void simulator_added(cosim::simulator_index i, cosim::manipulable* m, time_point) override { sims[i] = m; }
    void simulator_removed(cosim::simulator_index, time_point) override { }
    void step_commencing(time_point) override
    {
        for (auto& f : pending) f();
        pending.clear();
    }
    std::map<int, cosim::manipulable*> sims;
    std::vector<std::function<void()>> pending;
};

void override_with(cosim::override_manipulator& o, cosim::variable_id id, const value& v)
{
    switch (id.type) {
        case variable_type::real: o.override_real_variable(id.simulator, id.reference, std::get<double>(v)); break;
        case variable_type::integer: o.override_integer_variable(id.simulator, id.reference, std::get<int>(v)); break;
        case variable_type::boolean: o.override_boolean_variable(id.simulator, id.reference, std::get<bool>(v)); break;
        default: o.override_string_variable(id.simulator, id.reference, std::get<std::string>(v));
    }
}

void run(pbt::test_case& c)
{
    clear_reports();
    gen_options o;
    o.maxSlaves = 4;
    o.maxFunctions = 2;
    o.maxFactor = 4;
    o.maxVars = 10;
    o.initialValues = true;
    o.threadCounts = {0, 0, 1, 3};
    auto s = gen_system(c, o);
    c.note(s.text());
    const auto vars = modifiable_vars(s);
    auto r = build(s, true);
    model m(s);
    state st(s, m);

    auto ov = std::make_shared<cosim::override_manipulator>();
    auto fm = std::make_shared<free_manipulator>();
    auto ob = std::make_shared<rec_observer>();
    const bool freeFirst = c.chance(30);
    if (freeFirst) r.exe->add_manipulator(fm);
    r.exe->add_manipulator(ov);
    const bool useFree = freeFirst || c.chance(30);
    if (useFree && !freeFirst) r.exe->add_manipulator(fm);
    const bool observed = c.chance(60);
    if (observed) r.exe->add_observer(ob);

    // Requests not yet in effect, in order.
    std::vector<std::pair<std::pair<int, int>, mod>> reqOv, reqFree;
    bool init = false;
    long n = 0;
    int requests = 0, inForceSteps = 0;

    auto request = [&] {
        if (vars.empty()) return;
        // prefer variables already involved
        auto v = !st.active.empty() && c.chance(50) ? *std::next(st.active.begin(), c.draw(st.active.size() - 1)) : c.pick(vars);
        const auto id = s.vid(v.first, v.second);
        ++requests;
        if (useFree && c.chance(40)) {
            const auto d = gen_mod(c, id.type, 25);
            c.note(pbt::cat("modifier on ", s.slaves[v.first]->name, "[", v.second, "]: ", d.text));
            reqFree.push_back({v, d});
            auto* sim = fm->sims.at(v.first);
            const bool in = is_input(s.slaves[v.first]->var(v.second).causality);
            fm->pending.push_back([=] {
                if (in) {
                    sim->expose_for_setting(id.type, id.reference);
                } else {
                    sim->expose_for_getting(id.type, id.reference);
                }
                switch (id.type) {
                    case variable_type::real:
                        in ? sim->set_real_input_modifier(id.reference, typed<double, double>(d)) : sim->set_real_output_modifier(id.reference, typed<double, double>(d));
                        break;
                    case variable_type::integer:
                        in ? sim->set_integer_input_modifier(id.reference, typed<int, int>(d)) : sim->set_integer_output_modifier(id.reference, typed<int, int>(d));
                        break;
                    case variable_type::boolean:
                        in ? sim->set_boolean_input_modifier(id.reference, typed<bool, bool>(d)) : sim->set_boolean_output_modifier(id.reference, typed<bool, bool>(d));
                        break;
                    default:
                        in ? sim->set_string_input_modifier(id.reference, typed<std::string, std::string_view>(d)) : sim->set_string_output_modifier(id.reference, typed<std::string, std::string_view>(d));
                }
            });
            return;
        }
        if (c.chance(30)) {
            c.note(pbt::cat("reset ", s.slaves[v.first]->name, "[", v.second, "]"));
            ov->reset_variable(id.simulator, id.type, id.reference);
            reqOv.push_back({v, {nullptr, "reset"}});
            if (!st.active.count(v)) c.label("reset of a variable that is not overridden");
        } else {
            const auto val = gen_value(c, id.type);
            c.note(pbt::cat("override ", s.slaves[v.first]->name, "[", v.second, "] with ", show(val)));
            override_with(*ov, id, val);
            reqOv.push_back({v, {[val](const value&, duration) { return val; }, "override"}});
        }
    };
    auto invalid = [&] {
        cosim::variable_id id{};
        std::string what;
        id.simulator = c.irange(0, static_cast<int>(s.slaves.size()) - 1);
        id.type = static_cast<variable_type>(c.draw(3));
        const auto& d = *s.slaves[id.simulator];
        std::vector<int> locals;
        for (int v = 0; v < d.var_count(); ++v) {
            if (d.var(v).causality == variable_causality::local) locals.push_back(v);
        }
        if (!locals.empty() && c.chance(40)) {
            const auto& v = d.var(c.pick(locals));
            id.type = v.type;
            id.reference = v.reference;
            what = "local variable";
        } else if (c.chance(50)) {
            id.reference = static_cast<cosim::value_reference>(c.draw(9));
            while (d.find(id.type, id.reference) >= 0) ++id.reference;
            what = "unknown variable";
        } else {
            id.simulator = c.chance(50) ? -1 : static_cast<int>(s.slaves.size()) + c.irange(0, 2);
            id.reference = 0;
            what = "unknown simulator";
        }
        bool threw = false;
        try {
            if (c.chance(40)) {
                ov->reset_variable(id.simulator, id.type, id.reference);
            } else {
                override_with(*ov, id, gen_value(c, id.type));
            }
        } catch (const std::exception&) {
            threw = true;
        }
        PBT_REQUIRE("invalid-accepted", threw, "a request for an ", what, " was accepted");
        c.label("invalid request");
    };
    auto begin_step = [&] {
        if (!init) {
            m.initialize();
            init = true;
        }
        auto flush = [&](auto& q) {
            for (auto& [v, d] : q) st.apply(v, d);
            q.clear();
        };
        if (freeFirst) flush(reqFree);
        flush(reqOv);
        if (!freeFirst) flush(reqFree);
        if (!st.active.empty()) ++inForceSteps;
    };
    c.repeat(1, 24, 10, [&](int) {
        switch (c.weighted({45, 45, 10})) {
            case 0: {
                const int k = c.irange(1, 3);
                c.note(pbt::cat(k, " steps"));
                if (c.chance(30)) {
                    r.exe->simulate_until(s.start + s.base * (n + k));
                    for (int j = 0; j < k; ++j) {
                        begin_step();
                        m.step();
                    }
                    n += k;
                    if (observed) check_observed(s, *ob, m);
                } else {
                    for (int j = 0; j < k; ++j) {
                        r.exe->step();
                        begin_step();
                        m.step();
                        ++n;
                        if (observed) check_observed(s, *ob, m);
                    }
                }
                check_reports();
                check_modified(s, r, st);
                compare_steps(s, r, m, "step");
                break;
            }
            case 1: request(); break;
            default: invalid();
        }
        if (c.chance(20)) check_modified(s, r, st);
    });
    r.exe->step();
    begin_step();
    m.step();
    compare_steps(s, r, m, "step");
    check_modified(s, r, st);
    if (requests >= 1 && inForceSteps >= 1) c.nontrivial();
    if (observed) c.label("observed");
    if (useFree) c.label("other modifiers as well");
}
} // namespace

int main(int argc, char** argv)
{
    pbt::spec s;
    s.id = "C15";
    s.rule = "a generated system with override and reset requests (and arbitrary modifiers) on variables of all types and causalities interleaved with steps, and invalid requests; compared with the model after every step; non-trivial: at least one request, in force in at least one step";
    s.quick_cases = 40000;
    s.thorough_cases = 1000000;
    s.setup = setup_process;
    s.run = run;
    return pbt::main(argc, argv, s);
}
