#include "structure.hpp"

using namespace structure;

std::unique_ptr<cosim::function> gen_function_type::instantiate(const cosim::function_parameter_value_map&)
{
    // hand over a unique_ptr to something that make_function() made
    class wrapper : public cosim::function
    {
    public:
        std::shared_ptr<cosim::function> f;
        cosim::function_description description() const override { return f->description(); }
        void set_real(const cosim::function_io_reference& r, double v) override { f->set_real(r, v); }
        void set_integer(const cosim::function_io_reference& r, int v) override { f->set_integer(r, v); }
        void set_boolean(const cosim::function_io_reference& r, bool v) override { f->set_boolean(r, v); }
        void set_string(const cosim::function_io_reference& r, std::string_view v) override { f->set_string(r, v); }
        double get_real(const cosim::function_io_reference& r) const override { return f->get_real(r); }
        int get_integer(const cosim::function_io_reference& r) const override { return f->get_integer(r); }
        bool get_boolean(const cosim::function_io_reference& r) const override { return f->get_boolean(r); }
        std::string_view get_string(const cosim::function_io_reference& r) const override { return f->get_string(r); }
        void calculate() override { f->calculate(); }
    };
    auto w = std::make_unique<wrapper>();
    w->f = make_function(*fun);
    return w;
}

namespace
{
void run(pbt::test_case& c)
{
    clear_reports();
    gen_options o;
    o.maxSlaves = 6;
    o.maxFunctions = 3;
    o.maxFactor = 4;
    o.initialValues = true;
    o.threadCounts = {0, 0, 2};
    auto s = gen_system(c, o);
    for (auto& d : s.slaves) d->explicitFactor = 0;
    const int ns = static_cast<int>(s.slaves.size()), nf = static_cast<int>(s.funs.size());

    // Several simulators may be of the same model: share a definition.
    std::vector<std::shared_ptr<gen_model>> modelOf(ns);
    std::vector<duration> hint(ns);
    for (int i = 0; i < ns; ++i) {
        hint[i] = s.slaves[i]->hint;
        modelOf[i] = std::make_shared<gen_model>(s.slaves[i]);
    }
    std::vector<bool> replaced(ns, false);
    for (int i = 1; i < ns; ++i) {
        if (c.chance(20)) {
            const int j = c.irange(0, i - 1);
            modelOf[i] = modelOf[j];
            replaced[i] = true; // drop what concerned its variables
        }
    }
    auto bad = [&](int i) { return replaced[i]; };

    // Distribute over structures.
    const int parts = c.weighted({70, 25, 5}) + 1;
    std::vector<int> partOf(ns), fpartOf(nf);
    for (auto& p : partOf) p = c.irange(0, parts - 1);
    for (auto& p : fpartOf) p = c.irange(0, parts - 1);
    auto drop = [](auto& v, auto f) { v.erase(std::remove_if(v.begin(), v.end(), f), v.end()); };
    drop(s.ss, [&](auto& k) { return partOf[k.src] != partOf[k.tgt] || bad(k.src) || bad(k.tgt); });
    drop(s.sf, [&](auto& k) { return partOf[k.src] != fpartOf[k.fun] || bad(k.src); });
    drop(s.fs, [&](auto& k) { return partOf[k.tgt] != fpartOf[k.fun] || bad(k.tgt); });
    drop(s.initial, [&](auto& v) { return bad(v.sim); });
    // but connect the simulators that share models, too
    for (int i = 0; i < ns; ++i) {
        if (!replaced[i]) continue;
        const auto& d = *modelOf[i]->def;
        for (int v = 0; v < d.var_count(); ++v) {
            if (d.var(v).causality != variable_causality::input || !c.chance(50)) continue;
            for (int j = 0; j < ns; ++j) {
                const auto& e = *modelOf[j]->def;
                int src = -1;
                for (int w = 0; w < e.var_count(); ++w) {
                    if ((e.var(w).causality == variable_causality::output || e.var(w).causality == variable_causality::calculated_parameter) && e.var(w).type == d.var(v).type && src < 0) src = w;
                }
                if (src >= 0 && partOf[i] == partOf[j]) {
                    s.ss.push_back({j, src, i, v});
                    break;
                }
            }
        }
    }
    // ...and feed some inputs from calculated parameters.
    // Names; the same ones may be used in different structures.
    std::vector<std::string> name(ns), fname(nf);
    {
        std::set<std::pair<int, std::string>> used;
        std::set<std::pair<gen_model*, std::string>> usedOfModel; // to tell instances apart
        auto fresh = [&](int part, gen_model* m) {
            std::string n;
            do {
                n = c.chance(80) ? std::string(1, static_cast<char>('a' + c.draw(25))) : c.one_of<std::string>({"x y", "a.b", "\xc3\xb8", "in", "out"});
                if (c.chance(30)) n += std::to_string(c.draw(99));
            } while (used.count({part, n}) || (m && usedOfModel.count({m, n})));
            used.insert({part, n});
            if (m) usedOfModel.insert({m, n});
            return n;
        };
        for (int i = 0; i < ns; ++i) name[i] = fresh(partOf[i], modelOf[i].get());
        for (int f = 0; f < nf; ++f) fname[f] = fresh(fpartOf[f], nullptr);
    }

    std::vector<cosim::system_structure> ss(parts);
    std::vector<cosim::variable_value_map> init(parts);
    auto add_sim = [&](int i) {
        c.note(pbt::cat("structure ", partOf[i], ": ", pbt::quote(name[i]), " of model ", modelOf[i]->def->name, " hint ", show(hint[i])));
        ss[partOf[i]].add_entity(name[i], std::shared_ptr<cosim::model>(modelOf[i]), hint[i]);
    };
    auto add_fun = [&](int f) {
        const auto& d = *s.funs[f];
        cosim::function_parameter_value_map p;
        std::shared_ptr<cosim::function_type> t;
        if (d.kind == fun_def::linear) {
            t = std::make_shared<cosim::linear_transformation_function_type>();
            // defaults: offset 0, factor 1
            if (d.offset != 0 || c.chance(50)) p[cosim::linear_transformation_function_type::offset_parameter_index] = d.offset;
            if (d.factor != 1 || c.chance(50)) p[cosim::linear_transformation_function_type::factor_parameter_index] = d.factor;
        } else if (d.kind == fun_def::vector_sum) {
            t = std::make_shared<cosim::vector_sum_function_type>();
            if (d.inputCount != 1 || c.chance(50)) p[cosim::vector_sum_function_type::inputCount_parameter_index] = d.inputCount;
            if (d.numericType != variable_type::real || c.chance(50)) p[cosim::vector_sum_function_type::numericType_parameter_index] = d.numericType;
            if (d.dimension != 1 || c.chance(50)) p[cosim::vector_sum_function_type::dimension_parameter_index] = d.dimension;
        } else {
            auto g = std::make_shared<gen_function_type>();
            static_cast<cosim::function_description&>(g->desc) = d.description();
            g->fun = s.funs[f];
            t = g;
        }
        c.note(pbt::cat("structure ", fpartOf[f], ": ", pbt::quote(fname[f]), " ", d.text()));
        ss[fpartOf[f]].add_entity(fname[f], t, p);
    };
    std::vector<int> order;
    for (int i = 0; i < ns + nf; ++i) order.push_back(i);
    c.shuffle(order);
    for (int i : order) i < ns ? add_sim(i) : add_fun(i - ns);

    auto sim_name = [&](int i, int v) { return cosim::full_variable_name(name[i], modelOf[i]->def->var(v).name); };
    auto fun_name = [&](int f, const fun_io& io) {
        const auto d = s.funs[f]->description();
        const auto& g = d.io_groups[io.ref.group];
        return cosim::full_variable_name(fname[f], g.name, io.ref.groupInstance, g.ios[io.ref.io].name, io.ref.ioInstance);
    };
    for (auto& k : s.ss) {
        c.note(pbt::cat("connect ", sim_name(k.src, k.srcVar), " to ", sim_name(k.tgt, k.tgtVar)));
        ss[partOf[k.src]].connect_variables(sim_name(k.src, k.srcVar), sim_name(k.tgt, k.tgtVar));
    }
    for (auto& k : s.sf) {
        c.note(pbt::cat("connect ", sim_name(k.src, k.srcVar), " to ", fun_name(k.fun, k.io)));
        ss[partOf[k.src]].connect_variables(sim_name(k.src, k.srcVar), fun_name(k.fun, k.io));
    }
    for (auto& k : s.fs) {
        c.note(pbt::cat("connect ", fun_name(k.fun, k.io), " to ", sim_name(k.tgt, k.tgtVar)));
        ss[partOf[k.tgt]].connect_variables(fun_name(k.fun, k.io), sim_name(k.tgt, k.tgtVar));
    }
    for (auto& v : s.initial) {
        c.note(pbt::cat("initial ", sim_name(v.sim, v.var), " = ", show(v.val)));
        cosim::add_variable_value(init[partOf[v.sim]], ss[partOf[v.sim]], sim_name(v.sim, v.var), v.val);
    }
    // Values that must be refused when added to the map.
    c.repeat(0, 3, 1, [&](int) {
        const int i = c.irange(0, ns - 1);
        const int v = c.irange(0, modelOf[i]->def->var_count() - 1);
        auto n = sim_name(i, v);
        value val;
        const auto t = modelOf[i]->def->var(v).type;
        switch (c.draw(nf > 0 ? 3 : 2)) {
            case 0: val = gen_value(c, static_cast<variable_type>((static_cast<int>(t) + 1 + c.draw(2)) % 4)); break;
            case 1:
                val = gen_value(c, t);
                n.variable_name += "x";
                break;
            case 2:
                val = gen_value(c, t);
                n.entity_name += "x9";
                break;
            default: {
                const int f = c.irange(0, nf - 1);
                if (fpartOf[f] != partOf[i]) return;
                const auto ios = s.funs[f]->ios();
                const auto io = c.pick(ios);
                n = fun_name(f, io);
                val = gen_value(c, io.type);
            }
        }
        auto m = init[partOf[i]];
        const bool ok = attempt("an invalid initial value", [&] { cosim::add_variable_value(init[partOf[i]], ss[partOf[i]], n, val); });
        PBT_REQUIRE("initial-accepted", !ok, "initial value ", show(val), " for ", n, " was accepted");
        PBT_REQUIRE("initial-changed", m == init[partOf[i]], "a refused initial value changed the map");
        c.label("invalid initial value");
    });

    // Inject everything.
    running r;
    r.algo = std::make_shared<cosim::fixed_step_algorithm>(s.base, s.threads);
    r.exe = std::make_unique<cosim::execution>(s.start, r.algo);
    auto obs = std::make_shared<rec_observer>();
    obs->expose = false;
    r.exe->add_observer(obs);
    std::vector<int> simIndex(ns, -1), funIndex(nf, -1);
    for (int p = 0; p < parts; ++p) {
        const auto maps = init[p].empty() && c.chance(50) ? cosim::inject_system_structure(*r.exe, ss[p], {}) : cosim::inject_system_structure(*r.exe, ss[p], init[p]);
        int wantS = 0, wantF = 0;
        for (int i = 0; i < ns; ++i) {
            if (partOf[i] != p) continue;
            ++wantS;
            PBT_REQUIRE("index-map", maps.simulators.count(name[i]), "no index for simulator ", name[i]);
            simIndex[i] = maps.simulators.at(name[i]);
        }
        for (int f = 0; f < nf; ++f) {
            if (fpartOf[f] != p) continue;
            ++wantF;
            PBT_REQUIRE("index-map", maps.functions.count(fname[f]), "no index for function ", fname[f]);
            funIndex[f] = maps.functions.at(fname[f]);
        }
        PBT_REQUIRE("index-map", static_cast<int>(maps.simulators.size()) == wantS && static_cast<int>(maps.functions.size()) == wantF, "wrong number of entries in the index maps");
    }
    // What should have come out, in terms of the indexes.
    sysdef w;
    w.base = s.base;
    w.start = s.start;
    w.threads = s.threads;
    w.slaves.resize(ns);
    r.slaves.resize(ns);
    w.funs.resize(nf);
    std::map<std::string, std::size_t> taken;
    for (int i = 0; i < ns; ++i) {
        PBT_REQUIRE("index-map", simIndex[i] >= 0 && simIndex[i] < ns && !w.slaves[simIndex[i]], "simulator index ", simIndex[i]);
        for (auto& [d, sl] : modelOf[i]->instances) {
            if (d->name != name[i] || std::find(r.slaves.begin(), r.slaves.end(), sl) != r.slaves.end()) continue;
            w.slaves[simIndex[i]] = d;
            r.slaves[simIndex[i]] = sl;
            d->hint = hint[i];
            break;
        }
        PBT_REQUIRE("instance", r.slaves[simIndex[i]], "no slave was instantiated for ", name[i]);
    }
    std::size_t instances = 0;
    std::set<gen_model*> distinct;
    for (auto& m : modelOf) {
        if (distinct.insert(m.get()).second) instances += m->instances.size();
    }
    PBT_REQUIRE("instance", static_cast<int>(instances) == ns, instances, " slaves were instantiated for ", ns, " simulators");
    for (int f = 0; f < nf; ++f) {
        PBT_REQUIRE("index-map", funIndex[f] >= 0 && funIndex[f] < nf && !w.funs[funIndex[f]], "function index ", funIndex[f]);
        w.funs[funIndex[f]] = s.funs[f];
    }
    for (auto k : s.ss) w.ss.push_back({simIndex[k.src], k.srcVar, simIndex[k.tgt], k.tgtVar});
    for (auto k : s.sf) w.sf.push_back({simIndex[k.src], k.srcVar, funIndex[k.fun], k.io});
    for (auto k : s.fs) w.fs.push_back({funIndex[k.fun], k.io, simIndex[k.tgt], k.tgtVar});
    for (auto v : s.initial) w.initial.push_back({simIndex[v.sim], v.var, v.val});

    std::set<std::pair<int, std::string>> added;
    std::size_t connects = 0;
    for (auto& n : obs->log) {
        if (n.kind == note::added) added.insert({n.sim, n.name});
        if (n.kind == note::connected) ++connects;
    }
    for (int i = 0; i < ns; ++i) PBT_REQUIRE("name", added.count({simIndex[i], name[i]}), "simulator ", simIndex[i], " is not called ", name[i]);
    PBT_REQUIRE("connection-count", connects == w.ss.size(), connects, " connections between simulators, expected ", w.ss.size());

    model m(w);
    m.initialize();
    const int n = c.irange(1, 8);
    for (int k = 0; k < n; ++k) {
        r.exe->step();
        m.step();
    }
    check_reports();
    compare_steps(w, r, m, "step");
    if (ns >= 2 && s.ss.size() + s.sf.size() + s.fs.size() >= 1) c.nontrivial();
    if (parts > 1) c.label("several structures");
    if (!s.sf.empty() && !s.fs.empty()) c.label("connected functions");
    if (!s.initial.empty()) c.label("initial values");
}
} // namespace

int main(int argc, char** argv)
{
    pbt::spec s;
    s.id = "C19";
    s.rule = "generated systems expressed as one or several system structures (models shared by simulators, functions with and without default parameters, initial values incl. invalid ones) and injected into an execution, which is run and compared with the model of the system; non-trivial: at least two simulators and a connection";
    s.quick_cases = 60000;
    s.thorough_cases = 1500000;
    s.setup = setup_process;
    s.run = run;
    return pbt::main(argc, argv, s);
}
