#include "structure.hpp"

using namespace structure;

std::unique_ptr<cosim::function> gen_function_type::instantiate(const cosim::function_parameter_value_map&) { throw std::logic_error("not used"); }

namespace
{
using ptype = cosim::function_parameter_type;
using pvalue = cosim::function_parameter_value;

pvalue gen_pvalue(pbt::test_case& c, ptype t, bool count = false)
{
    switch (t) {
        case ptype::real: return c.irange(-8, 8) / 4.0;
        case ptype::integer: return c.irange(count ? 1 : -4, 4);
        default: return static_cast<variable_type>(c.draw(3));
    }
}

bool in_range(const pvalue& v, const cosim::function_parameter_description& d)
{
    if (v.index() != static_cast<std::size_t>(d.type)) return false;
    if (d.type == ptype::real) {
        if (d.min_value && std::get<double>(v) < std::get<double>(*d.min_value)) return false;
        if (d.max_value && std::get<double>(v) > std::get<double>(*d.max_value)) return false;
    }
    if (d.type == ptype::integer) {
        if (d.min_value && std::get<int>(v) < std::get<int>(*d.min_value)) return false;
        if (d.max_value && std::get<int>(v) > std::get<int>(*d.max_value)) return false;
    }
    return true;
}

/// A function type with random parameters and placeholders.
std::shared_ptr<gen_function_type> gen_ftype(pbt::test_case& c)
{
    auto f = std::make_shared<gen_function_type>();
    std::vector<int> counts, types;
    for (int k = c.irange(0, 4); k > 0; --k) {
        cosim::function_parameter_description d;
        d.name = pbt::cat("p", k);
        d.type = static_cast<ptype>(c.draw(2));
        const bool count = d.type == ptype::integer && c.chance(70);
        if (d.type != ptype::type && (count || c.chance(50))) d.min_value = count ? pvalue(c.irange(0, 1)) : gen_pvalue(c, d.type);
        if (d.type != ptype::type && c.chance(50)) {
            d.max_value = gen_pvalue(c, d.type, count);
            if (d.min_value && *d.max_value < *d.min_value) d.max_value = d.min_value;
        }
        d.default_value = gen_pvalue(c, d.type, count);
        if (!in_range(d.default_value, d)) d.default_value = d.min_value ? *d.min_value : *d.max_value;
        if (count) counts.push_back(static_cast<int>(f->desc.parameters.size()));
        if (d.type == ptype::type) types.push_back(static_cast<int>(f->desc.parameters.size()));
        f->desc.parameters.push_back(d);
    }
    auto count = [&]() -> std::variant<int, cosim::function_parameter_placeholder> {
        if (!counts.empty() && c.chance(60)) return cosim::function_parameter_placeholder{c.pick(counts)};
        return c.irange(1, 3);
    };
    for (int g = c.irange(1, 3); g > 0; --g) {
        cosim::function_io_group_description gd;
        gd.name = pbt::cat("g", g);
        gd.count = count();
        for (int i = c.irange(1, 3); i > 0; --i) {
            cosim::function_io_description d{i == 1 && c.chance(50) ? "" : pbt::cat("x", i), static_cast<variable_type>(c.draw(3)), c.chance(50) ? variable_causality::input : variable_causality::output, 1};
            if (!types.empty() && c.chance(60)) d.type = cosim::function_parameter_placeholder{c.pick(types)};
            d.count = count();
            gd.ios.push_back(d);
        }
        f->desc.io_groups.push_back(gd);
    }
    return f;
}

struct ent
{
    std::shared_ptr<gen_model> m;
    std::shared_ptr<cosim::function_type> f;
    duration hint{};
    cosim::function_parameter_value_map params;

    template<typename T>
    T sub(const std::variant<T, cosim::function_parameter_placeholder>& v) const
    {
        if (auto p = std::get_if<T>(&v)) return *p;
        const int i = std::get<cosim::function_parameter_placeholder>(v).parameter_index;
        const auto it = params.find(i);
        return std::get<T>(it == params.end() ? f->description().parameters.at(i).default_value : it->second);
    }
};

std::string gen_entity_name(pbt::test_case& c)
{
    switch (c.weighted({75, 20, 5})) {
        case 0: return std::string(1, static_cast<char>('a' + c.draw(7)));
        case 1: return c.one_of<std::string>({"x y", "a.b", "A", "\xc3\xb8", "a:", "[1]", "in", "out"});
        default: return "";
    }
}

void run(pbt::test_case& c)
{
    std::vector<std::shared_ptr<gen_model>> models;
    std::vector<std::shared_ptr<cosim::function_type>> ftypes;
    gen_options o;
    o.maxVars = 8;
    for (int k = c.irange(1, 3); k > 0; --k) {
        auto d = gen_slave(c, pbt::cat("m", k), duration(1000), o);
        for (auto& v : d->md.variables) {
            // the same names in all models; some of the inputs cannot be changed
            if (c.chance(10)) v.name = c.one_of<std::string>({"a.b", "in", "x y", "g1"}) + v.name;
            if (v.causality == variable_causality::input && c.chance(15)) v.variability = c.chance(50) ? variable_variability::fixed : variable_variability::constant;
            else if (c.chance(6)) v.variability = variable_variability::constant;
        }
        models.push_back(std::make_shared<gen_model>(d));
    }
    ftypes.push_back(std::make_shared<cosim::linear_transformation_function_type>());
    ftypes.push_back(std::make_shared<cosim::vector_sum_function_type>());
    for (int k = c.irange(0, 2); k > 0; --k) ftypes.push_back(gen_ftype(c));

    cosim::system_structure ss;
    std::map<std::string, ent> ents;
    std::map<std::string, std::string> conns; // target -> source
    int accepted = 0, refused = 0, connected = 0;

    // Everything that can be named in the present system.
    auto all_names = [&](bool sources) {
        std::vector<cosim::full_variable_name> r;
        for (auto& [n, e] : ents) {
            if (e.m) {
                for (auto& v : e.m->def->md.variables) {
                    const bool src = v.causality == variable_causality::output || v.causality == variable_causality::calculated_parameter;
                    if (src == sources) r.push_back({n, v.name});
                }
            } else {
                for (auto& g : e.f->description().io_groups) {
                    for (auto& io : g.ios) {
                        if ((io.causality == variable_causality::output) != sources) continue;
                        const int gc = e.sub<int>(g.count), ic = e.sub<int>(io.count);
                        if (gc < 1 || ic < 1) continue;
                        r.push_back({n, g.name, c.irange(0, gc - 1), io.name, c.irange(0, ic - 1)});
                    }
                }
            }
        }
        return r;
    };
    struct res
    {
        bool ok = false, fun = false;
        variable_type type{};
        variable_causality causality{};
        bool modifiable = true;
        const cosim::variable_description* vd = nullptr;
        int g = 0, io = 0;
        int count = 0;
    };
    auto resolve = [&](const cosim::full_variable_name& n) {
        res r;
        r.fun = !n.variable_group_name.empty();
        const auto it = ents.find(n.entity_name);
        if (it == ents.end()) return r;
        const auto& e = it->second;
        if (!r.fun) {
            if (!e.m) return r;
            for (auto& v : e.m->def->md.variables) {
                if (v.name != n.variable_name) continue;
                r.ok = true;
                r.type = v.type;
                r.causality = v.causality;
                r.modifiable = v.variability != variable_variability::fixed && v.variability != variable_variability::constant;
                r.vd = &v;
            }
            return r;
        }
        if (!e.f) return r;
        const auto d = e.f->description();
        for (int g = 0; g < static_cast<int>(d.io_groups.size()); ++g) {
            if (d.io_groups[g].name != n.variable_group_name) continue;
            for (int i = 0; i < static_cast<int>(d.io_groups[g].ios.size()); ++i) {
                const auto& io = d.io_groups[g].ios[i];
                if (io.name != n.variable_name) continue;
                r.count = e.sub<int>(io.count);
                r.ok = n.variable_group_instance >= 0 && n.variable_group_instance < e.sub<int>(d.io_groups[g].count) && n.variable_instance >= 0 && n.variable_instance < r.count;
                r.type = e.sub<variable_type>(io.type);
                r.causality = io.causality;
                r.g = g;
                r.io = i;
            }
        }
        return r;
    };
    auto spoil = [&](cosim::full_variable_name n) {
        switch (c.draw(6)) {
            case 0: n.entity_name = gen_entity_name(c); break;
            case 1: n.variable_name += "x"; break;
            case 2: n.variable_name = c.one_of<std::string>({"", "v0", "v1", "x1"}); break;
            case 3: n.variable_group_name = c.one_of<std::string>({"", "in", "out", "g1", "g2"}); break;
            case 4: n.variable_group_instance = c.irange(-1, 4); break;
            case 5: n.variable_instance = c.irange(-1, 4); break;
            default: std::swap(n.variable_name, n.variable_group_name);
        }
        return n;
    };
    auto any_name = [&](bool source) {
        auto v = all_names(source);
        auto n = v.empty() ? cosim::full_variable_name("a", "v0") : c.pick(v);
        if (c.chance(12)) n = spoil(n);
        return n;
    };
    auto add = [&] {
        const auto name = gen_entity_name(c);
        ent e;
        cosim::system_structure::entity_type type;
        bool valid = !name.empty() && !ents.count(name);
        std::string text;
        if (c.chance(60)) {
            e.m = c.pick(models);
            type = e.m;
            if (c.chance(60)) e.hint = duration(c.range(-1, 5) * c.range(0, 1000000));
            if (e.hint < duration::zero()) valid = false;
            text = pbt::cat("simulator of ", e.m->def->name, " hint ", show(e.hint));
        } else {
            e.f = c.pick(ftypes);
            type = e.f;
            text = pbt::cat("function type ", std::find(ftypes.begin(), ftypes.end(), e.f) - ftypes.begin());
            const auto d = e.f->description();
            for (int p = 0; p < static_cast<int>(d.parameters.size()); ++p) {
                if (!c.chance(60)) continue;
                auto v = gen_pvalue(c, d.parameters[p].type, c.chance(90));
                if (c.chance(6)) v = gen_pvalue(c, static_cast<ptype>((static_cast<int>(d.parameters[p].type) + 1 + c.draw(1)) % 3));
                // a sum of booleans or strings makes no sense, but whether it is valid is not defined
                if (dynamic_cast<cosim::vector_sum_function_type*>(e.f.get()) && v.index() == 2 && static_cast<int>(std::get<2>(v)) > 1) v = variable_type::integer;
                if (!in_range(v, d.parameters[p])) valid = false;
                e.params[p] = v;
                text += pbt::cat(" ", p, "=", v.index() == 0 ? pbt::cat(std::get<0>(v)) : v.index() == 1 ? pbt::cat(std::get<1>(v), "i") : pbt::cat(std::get<2>(v)));
            }
            if (c.chance(4)) {
                e.params[c.chance(50) ? -1 : static_cast<int>(d.parameters.size())] = 1;
                valid = false;
                text += " and a parameter that does not exist";
            }
        }
        c.note(pbt::cat("add ", pbt::quote(name), " ", text));
        const bool ok = attempt("adding an entity", [&] {
            switch (c.draw(1)) {
                case 0:
                    if (e.m) {
                        ss.add_entity(name, std::shared_ptr<cosim::model>(e.m), e.hint);
                    } else {
                        ss.add_entity(name, e.f, e.params);
                    }
                    break;
                default: ss.add_entity({name, type, e.hint, e.params});
            }
        });
        PBT_REQUIRE("add", ok == valid, "adding ", pbt::quote(name), " (", text, ") was ", ok ? "accepted" : "refused");
        ok ? ++accepted : ++refused;
        if (ok) ents[name] = e;
    };
    auto connect = [&] {
        auto src = any_name(true), tgt = any_name(false);
        if (c.chance(70)) {
            // a compatible source, if there is one
            const auto t = resolve(tgt).type;
            auto v = all_names(true);
            std::vector<cosim::full_variable_name> good;
            for (auto& n : v) {
                if (resolve(n).type == t && !(resolve(n).fun && resolve(tgt).fun)) good.push_back(n);
            }
            if (!good.empty()) src = c.pick(good);
        }
        if (c.chance(5)) std::swap(src, tgt);
        if (c.chance(5)) src = any_name(false);
        // Instance numbers have no meaning for simulator variables.
        if (tgt.variable_group_name.empty() && c.chance(5)) tgt.variable_instance = 1;
        const auto a = resolve(src), b = resolve(tgt);
        const bool valid = a.ok && b.ok && !(a.fun && b.fun) && a.type == b.type && (a.causality == variable_causality::output || a.causality == variable_causality::calculated_parameter) &&
            b.causality == variable_causality::input && b.modifiable && !conns.count(key(tgt));
        c.note(pbt::cat("connect ", key(src), " to ", key(tgt)));
        const bool ok = attempt("connecting variables", [&] {
            if (c.chance(50)) {
                ss.connect_variables(src, tgt);
            } else {
                ss.connect_variables(cosim::system_structure::connection{src, tgt});
            }
        });
        PBT_REQUIRE("connect", ok == valid, "connecting ", key(src), " to ", key(tgt), " was ", ok ? "accepted" : "refused", conns.count(key(tgt)) ? " (already connected)" : "");
        ok ? ++accepted : ++refused;
        if (ok) {
            conns[key(tgt)] = key(src);
            ++connected;
        }
        if (!valid && a.ok && b.ok) c.label("refused connection between existing variables");
    };
    auto lookup = [&] {
        const auto name = gen_entity_name(c);
        const auto* f = ss.find_entity(name);
        PBT_REQUIRE("find-entity", (f != nullptr) == (ents.count(name) > 0) && (!f || f->name == name), "looking up ", pbt::quote(name), f ? " gave something" : " gave nothing");
        const auto n = any_name(c.chance(50));
        const auto r = resolve(n);
        if (!r.fun || c.chance(15)) {
            bool got = attempt("looking up a simulator variable", [&] {
                const auto& d = ss.get_variable_description(n);
                if (r.ok && !r.fun) {
                    PBT_REQUIRE("variable-description", d.name == r.vd->name && d.reference == r.vd->reference && d.type == r.vd->type && d.causality == r.vd->causality && d.variability == r.vd->variability && d.start == r.vd->start, "wrong description of ", key(n));
                }
            });
            PBT_REQUIRE("variable-lookup", got == (r.ok && !r.fun), "looking up simulator variable ", key(n), " was ", got ? "successful" : "refused");
        }
        if (r.fun || c.chance(15)) {
            bool got = attempt("looking up a function variable", [&] {
                const auto& d = ss.get_function_io_description(n);
                if (r.ok && r.fun) {
                    PBT_REQUIRE("function-description", d.group_index == r.g && d.io_index == r.io && d.description.name == n.variable_name && std::get<variable_type>(d.description.type) == r.type && d.description.causality == r.causality && std::get<int>(d.description.count) == r.count,
                        "wrong description of ", key(n));
                }
            });
            PBT_REQUIRE("function-lookup", got == (r.ok && r.fun), "looking up function variable ", key(n), " was ", got ? "successful" : "refused");
        }
    };
    auto check_listing = [&](const cosim::system_structure& s, const std::map<std::string, ent>& wantE, const std::map<std::string, std::string>& wantC, const char* which) {
        std::set<std::string> seen;
        for (const auto& e : s.entities()) {
            const auto it = wantE.find(e.name);
            PBT_REQUIRE("entities", it != wantE.end() && seen.insert(e.name).second, which, ": unexpected entity ", pbt::quote(e.name));
            const auto m = cosim::entity_type_to<cosim::model>(e.type);
            const auto f = cosim::entity_type_to<cosim::function_type>(e.type);
            PBT_REQUIRE("entity-type", m == it->second.m && f == it->second.f, which, ": wrong type of entity ", e.name);
            if (m) PBT_REQUIRE("entity-hint", e.step_size_hint == it->second.hint, which, ": wrong step size hint of ", e.name);
            if (f) PBT_REQUIRE("entity-parameters", same(e.parameter_values, it->second.params), which, ": wrong parameters of ", e.name);
        }
        PBT_REQUIRE("entities", seen.size() == wantE.size(), which, ": ", seen.size(), " entities, expected ", wantE.size());
        std::set<std::string> got;
        for (const auto& k : s.connections()) {
            const auto it = wantC.find(key(k.target));
            PBT_REQUIRE("connections", it != wantC.end() && it->second == key(k.source) && got.insert(key(k.target)).second, which, ": unexpected connection from ", key(k.source), " to ", key(k.target));
        }
        PBT_REQUIRE("connections", got.size() == wantC.size(), which, ": ", got.size(), " connections, expected ", wantC.size());
    };
    auto ask = [&] {
        // The validity queries, with or without asking for the reason.
        cosim::variable_description a, b;
        cosim::function_io_description fa, fb;
        auto gen = [&](cosim::variable_description& d) {
            d.type = static_cast<variable_type>(c.draw(3));
            d.causality = static_cast<variable_causality>(c.draw(4));
            d.variability = static_cast<cosim::variable_variability>(c.draw(4));
        };
        gen(a), gen(b);
        if (c.chance(60)) b.type = a.type;
        fa.type = a.type, fb.type = b.type;
        fa.causality = a.causality, fb.causality = b.causality;
        fa.count = fb.count = 1;
        const bool ends = a.type == b.type && (a.causality == variable_causality::output || a.causality == variable_causality::calculated_parameter) && b.causality == variable_causality::input;
        const bool modifiable = b.variability != cosim::variable_variability::constant && b.variability != cosim::variable_variability::fixed;
        const bool why = c.chance(60);
        std::string reason;
        auto* r = why ? &reason : nullptr;
        bool want, got;
        const char* what;
        switch (c.draw(3)) {
            case 0: want = ends && modifiable, got = cosim::is_valid_connection(a, b, r), what = "a connection between simulator variables"; break;
            case 1: want = ends, got = cosim::is_valid_connection(a, fb, r), what = "a connection from a simulator to a function"; break;
            case 2: want = ends && modifiable, got = cosim::is_valid_connection(fa, b, r), what = "a connection from a function to a simulator"; break;
            default: {
                const cosim::scalar_value vs[] = {1.0, 1, true, std::string("x")};
                const variable_type ts[] = {variable_type::real, variable_type::integer, variable_type::boolean, variable_type::string};
                const auto k = c.draw(3);
                want = a.type == ts[k], got = cosim::is_valid_variable_value(a, vs[k], r), what = "a value for a variable";
            }
        }
        PBT_REQUIRE("validity", got == want, what, " is ", got ? "valid" : "invalid", " (types ", static_cast<int>(a.type), " ", static_cast<int>(b.type), ", causalities ", static_cast<int>(a.causality), " ", static_cast<int>(b.causality), ")");
        if (why && !want) PBT_REQUIRE("reason", !reason.empty(), what, " is invalid for no reason");
    };
    cosim::variable_value_map values;
    std::map<std::string, cosim::scalar_value> wantValues;
    auto value = [&] {
        cosim::full_variable_name n("a", "v0");
        if (c.chance(80)) {
            std::vector<cosim::full_variable_name> all;
            for (auto& [name, e] : ents)
                if (e.m)
                    for (auto& v : e.m->def->md.variables) all.push_back({name, v.name});
            if (!all.empty()) n = c.pick(all);
            if (c.chance(8)) n = spoil(n);
        } else n = any_name(c.chance(50));
        const auto r = resolve(n);
        const auto val = gen_value(c, r.ok && !r.fun && c.chance(85) ? r.type : static_cast<variable_type>(c.draw(3)));
        const bool valid = r.ok && !r.fun && r.vd->variability != variable_variability::constant && val.index() == static_cast<std::size_t>(r.type);
        c.note(pbt::cat("value for ", key(n)));
        const bool ok = attempt("adding a value", [&] { cosim::add_variable_value(values, ss, n, val); });
        PBT_REQUIRE("value", ok == valid, "a value for ", key(n), " was ", ok ? "accepted" : "refused");
        if (ok) wantValues[key(n)] = val;
        if (!ok && r.ok && !r.fun) c.label("refused value for an existing variable");
        PBT_REQUIRE("value", values.size() == wantValues.size(), "there are ", values.size(), " values, expected ", wantValues.size());
        for (auto& [k, v] : values) {
            const auto it = wantValues.find(key(k));
            PBT_REQUIRE("value", it != wantValues.end() && it->second == v, "wrong value for ", key(k));
        }
    };
    auto compare = [&] {
        const auto a = any_name(c.chance(50)), b = c.chance(40) ? a : any_name(c.chance(50));
        auto d = b;
        if (c.chance(30)) {
            switch (c.draw(4)) {
                case 0: d.entity_name += "x"; break;
                case 1: d.variable_name += "x"; break;
                case 2: d.variable_group_name += "x"; break;
                case 3: d.variable_group_instance += 1; break;
                default: d.variable_instance += 1;
            }
        }
        const bool same = a.entity_name == d.entity_name && a.variable_group_name == d.variable_group_name && a.variable_group_instance == d.variable_group_instance && a.variable_name == d.variable_name && a.variable_instance == d.variable_instance;
        if (a.is_simulator_variable() && d.is_simulator_variable() && a.entity_name == d.entity_name && a.variable_name == d.variable_name) return; // instance numbers mean nothing here
        PBT_REQUIRE("equality", (a == d) == same && (a != d) == !same, key(a), same ? " differs from itself" : " equals ", same ? std::string() : key(d));
        if (same) PBT_REQUIRE("equality", std::hash<cosim::full_variable_name>()(a) == std::hash<cosim::full_variable_name>()(d), key(a), " has two hash values");
    };
    std::optional<cosim::system_structure> copy;
    std::map<std::string, ent> copyE;
    std::map<std::string, std::string> copyC;
    c.repeat(2, 6, 4, [&](int) { add(); });
    c.repeat(4, 50, 20, [&](int) {
        switch (c.weighted({25, 45, 20, 8, 2, 8, 4, 12})) {
            case 0: add(); break;
            case 1: connect(); break;
            case 2: lookup(); break;
            case 3: check_listing(ss, ents, conns, "structure"); break;
            case 5: ask(); break;
            case 6: compare(); break;
            case 7: value(); break;
            default:
                copy = ss;
                copyE = ents;
                copyC = conns;
        }
    });
    check_listing(ss, ents, conns, "structure");
    if (copy) check_listing(*copy, copyE, copyC, "copy");
    if (connected >= 2 && refused >= 1 && ents.size() >= 2) c.nontrivial();
    if (copy) c.label("copied");
}
} // namespace

int main(int argc, char** argv)
{
    pbt::spec s;
    s.id = "C18";
    s.rule = "sequences of adding entities (generated models, library and generated function types with parameters), connecting variables, giving variables initial values and looking things up, valid and invalid, compared with a model of the structure; non-trivial: at least two entities, two connections and one refused edit";
    s.quick_cases = 100000;
    s.thorough_cases = 3000000;
    s.run = run;
    return pbt::main(argc, argv, s);
}
