#include "sim.hpp"

#include <cosim/function/utility.hpp>

#include <cmath>

using namespace sim;
using cosim::function_parameter_value;

static bool close(double a, double b)
{
    if (a == b || (std::isnan(a) && std::isnan(b))) return true;
    return std::abs(a - b) <= 1e-12 * (std::abs(a) + std::abs(b));
}

static std::string show_param(const function_parameter_value& v)
{
    if (auto d = std::get_if<double>(&v)) return pbt::cat(*d);
    if (auto i = std::get_if<int>(&v)) return pbt::cat("i", *i);
    return cosim::to_text(std::get<variable_type>(v));
}

static function_parameter_value gen_param(pbt::test_case& c, int wanted)
{
    // wanted: 0 real, 1 integer, 2 type
    if (c.chance(8)) wanted = static_cast<int>(c.draw(2));
    if (wanted == 0) return c.chance(50) ? c.irange(-64, 64) / 8.0 : c.real();
    if (wanted == 1) {
        const auto k = c.weighted({84, 14, 2});
        return k == 0 ? c.irange(1, 6) : k == 1 ? c.irange(-2, 0) : c.irange(7, 40);
    }
    return static_cast<variable_type>(c.weighted({40, 40, 7, 7, 6}));
}

template<typename F>
static bool throws(F f)
{
    try {
        f();
    } catch (const std::exception&) {
        return true;
    }
    return false;
}

template<typename T>
struct io_access;
static void set(cosim::function& f, const cosim::function_io_reference& r, const value& v)
{
    if (auto d = std::get_if<double>(&v)) f.set_real(r, *d);
    else if (auto i = std::get_if<int>(&v)) f.set_integer(r, *i);
    else if (auto b = std::get_if<bool>(&v)) f.set_boolean(r, *b);
    else f.set_string(r, std::get<std::string>(v));
}
static value get(cosim::function& f, const cosim::function_io_reference& r, variable_type t)
{
    switch (t) {
        case variable_type::real: return f.get_real(r);
        case variable_type::integer: return f.get_integer(r);
        case variable_type::boolean: return f.get_boolean(r);
        default: return std::string(f.get_string(r));
    }
}

static void same_description(const cosim::function_description& a, const cosim::function_description& b, const char* tag)
{
    PBT_REQUIRE(tag, a.io_groups.size() == b.io_groups.size(), "number of groups");
    for (std::size_t g = 0; g < a.io_groups.size(); ++g) {
        auto &x = a.io_groups[g], &y = b.io_groups[g];
        PBT_REQUIRE(tag, x.name == y.name && std::get<int>(x.count) == std::get<int>(y.count) && x.ios.size() == y.ios.size(), "group ", x.name);
        for (std::size_t i = 0; i < x.ios.size(); ++i) {
            PBT_REQUIRE(tag, x.ios[i].name == y.ios[i].name && std::get<int>(x.ios[i].count) == std::get<int>(y.ios[i].count) && x.ios[i].causality == y.ios[i].causality &&
                    std::get<variable_type>(x.ios[i].type) == std::get<variable_type>(y.ios[i].type),
                "variable ", x.ios[i].name, " of group ", x.name);
        }
    }
}

static void standalone(pbt::test_case& c)
{
    fun_def d;
    std::shared_ptr<cosim::function_type> type;
    std::vector<int> wanted;
    if (c.chance(50)) {
        d.kind = fun_def::vector_sum;
        type = std::make_shared<cosim::vector_sum_function_type>();
        wanted = {1, 2, 1};
        using T = cosim::vector_sum_function_type;
        static_assert(T::inputCount_parameter_index == 0 && T::numericType_parameter_index == 1 && T::dimension_parameter_index == 2);
    } else {
        type = std::make_shared<cosim::linear_transformation_function_type>();
        wanted = {0, 0};
    }
    cosim::function_parameter_value_map params;
    bool ok = true, outOfRange = false; // or of the wrong type
    for (int i = 0; i < static_cast<int>(wanted.size()); ++i) {
        if (!c.chance(75)) continue; // default
        const auto v = gen_param(c, wanted[i]);
        params[i] = v;
        c.note(pbt::cat("parameter ", i, " = ", show_param(v)));
        if (static_cast<int>(v.index()) != wanted[i]) {
            ok = false, outOfRange = true;
        } else if (d.kind == fun_def::linear) {
            (i == 0 ? d.offset : d.factor) = std::get<double>(v);
        } else if (i == 1) {
            d.numericType = std::get<variable_type>(v);
            if (d.numericType != variable_type::real && d.numericType != variable_type::integer) ok = false;
        } else {
            const int n = std::get<int>(v);
            if (n < 1) ok = false, outOfRange = true;
            (i == 0 ? d.inputCount : d.dimension) = n;
        }
    }
    // The type's description
    const auto td = type->description();
    PBT_REQUIRE("parameters", td.parameters.size() == wanted.size(), td.parameters.size(), " parameters");
    static const char* lnames[] = {"offset", "factor"};
    static const char* vnames[] = {"inputCount", "numericType", "dimension"};
    for (std::size_t i = 0; i < wanted.size(); ++i) {
        PBT_REQUIRE("parameters", td.parameters[i].name == (d.kind == fun_def::linear ? lnames[i] : vnames[i]), td.parameters[i].name);
        PBT_REQUIRE("parameters", static_cast<int>(td.parameters[i].default_value.index()) == wanted[i] && static_cast<int>(td.parameters[i].type) == wanted[i], "type of ", td.parameters[i].name);
    }
    if (!ok) {
        c.label("invalid parameters");
        c.nontrivial();
        PBT_REQUIRE("invalid-parameters-accepted", throws([&] { type->instantiate(params); }), "instantiate() accepted invalid parameters");
        // (the parameters of linear transformations do not appear in the description)
        if (outOfRange && d.kind == fun_def::vector_sum) PBT_REQUIRE("invalid-parameters-accepted", throws([&] { cosim::substitute_function_parameters(td, params); }), "substitute_function_parameters() accepted invalid parameters");
        return;
    }
    std::shared_ptr<cosim::function> f;
    try {
        f = type->instantiate(params);
    } catch (const std::exception& e) {
        pbt::fail("valid-parameters-refused", e.what());
    }
    PBT_REQUIRE("no-instance", f != nullptr, "null");
    same_description(f->description(), d.description(), "description");
    same_description(cosim::substitute_function_parameters(td, params), d.description(), "substituted-description");
    c.label(d.kind == fun_def::linear ? "linear, alone" : "vector sum, alone");
    c.nontrivial();

    std::map<io_ref, value> in, out;
    const auto ios = d.ios();
    for (auto& io : ios) {
        if (io.input) in[io.ref] = default_value(io.type);
    }
    bool calculated = false;
    const bool exact = c.chance(50);
    c.repeat(1, 25, 8, [&](int) {
        switch (c.weighted({55, 30, 15})) {
            case 0: {
                auto io = ios[c.draw(ios.size() - 1)];
                if (!io.input) io = ios[0];
                value v = gen_value(c, io.type);
                if (io.type == variable_type::real && !exact) v = c.real();
                c.note(pbt::cat("set ", io.ref.groupInstance, ",", io.ref.ioInstance, " = ", show(v)));
                set(*f, io.ref.ref(), v);
                in[io.ref] = v;
                break;
            }
            case 1:
                f->calculate();
                out = d.compute(in);
                calculated = true;
                c.note("calculate");
                break;
            default: {
                // references that do not exist, or of the wrong type or direction
                cosim::function_io_reference r{c.irange(-1, 2), c.irange(-1, d.inputCount), c.irange(-1, 1), c.irange(-1, d.dimension)};
                const auto t = static_cast<variable_type>(c.draw(3));
                bool isIn = false, isAny = false;
                for (auto& io : ios) {
                    if (io.ref.group == r.group && io.ref.groupInstance == r.group_instance && io.ref.io == r.io && io.ref.ioInstance == r.io_instance && io.type == t) {
                        isAny = true;
                        isIn = io.input;
                    }
                }
                if (!isAny) {
                    PBT_REQUIRE("bad-get", throws([&] { get(*f, r, t); }), "reading variable (", r.group, ",", r.group_instance, ",", r.io, ",", r.io_instance, ") of type ", t, " did not fail");
                }
                if (!isIn) {
                    PBT_REQUIRE("bad-set", throws([&] { set(*f, r, gen_value(c, t)); }), "setting variable (", r.group, ",", r.group_instance, ",", r.io, ",", r.io_instance, ") of type ", t, " did not fail");
                }
                break;
            }
        }
        for (auto& io : ios) {
            const auto got = get(*f, io.ref.ref(), io.type);
            if (io.input) {
                PBT_REQUIRE("input-value", got == in[io.ref] || io.type == variable_type::real && std::isnan(std::get<double>(got)), show(got), " instead of ", show(in[io.ref]));
            } else if (calculated) {
                const bool same = exact || io.type != variable_type::real ? got == out[io.ref] : close(std::get<double>(got), std::get<double>(out[io.ref]));
                if (exact && d.kind == fun_def::linear && !same && close(std::get<double>(got), std::get<double>(out[io.ref]))) continue; // inexact parameters
                // sums of values of different magnitudes may be rounded differently
                if (!exact && d.kind == fun_def::vector_sum && io.type == variable_type::real) {
                    double mag = 0;
                    for (auto& [r, v] : in) {
                        if (r.ioInstance == io.ref.ioInstance) mag += std::abs(std::get<double>(v));
                    }
                    if (!std::isfinite(mag) || std::abs(std::get<double>(got) - std::get<double>(out[io.ref])) <= 1e-12 * mag) continue;
                }
                if (!exact && d.kind == fun_def::linear) {
                    const double mag = std::abs(d.offset) + std::abs(d.factor * std::get<double>(in[{0, 0, 0, 0}]));
                    if (!std::isfinite(mag) || std::abs(std::get<double>(got) - std::get<double>(out[io.ref])) <= 1e-12 * mag) continue;
                }
                PBT_REQUIRE("output-value", same, d.text(), ": output ", io.ref.ioInstance, " is ", show(got), ", expected ", show(out[io.ref]));
            }
        }
    });
}

/// Any function type's description, with parameter values put in.
static void substitution(pbt::test_case& c)
{
    using cosim::function_parameter_placeholder;
    cosim::function_type_description td;
    const int np = c.irange(0, 4);
    for (int i = 0; i < np; ++i) {
        cosim::function_parameter_description p;
        p.name = pbt::cat("p", i);
        p.type = static_cast<cosim::function_parameter_type>(c.weighted({15, 60, 25}));
        switch (p.type) {
            case cosim::function_parameter_type::real:
                p.default_value = c.irange(-8, 8) / 4.0;
                if (c.chance(30)) p.min_value = -2.0;
                break;
            case cosim::function_parameter_type::integer:
                p.default_value = c.irange(1, 9);
                if (c.chance(60)) p.min_value = c.irange(-1, 3);
                if (c.chance(40)) p.max_value = c.irange(3, 9);
                break;
            default: p.default_value = static_cast<variable_type>(c.draw(4));
        }
        td.parameters.push_back(p);
    }
    cosim::function_parameter_value_map values;
    for (int i = -1; i <= np; ++i) {
        if (!c.chance(i < 0 || i == np ? 5 : 60)) continue;
        const auto type = i < 0 || i == np || c.chance(6) ? static_cast<int>(c.draw(2)) : static_cast<int>(td.parameters[static_cast<std::size_t>(i)].type);
        if (type == 0) values[i] = c.irange(-16, 16) / 4.0;
        else if (type == 1) values[i] = c.irange(-2, 10);
        else values[i] = static_cast<variable_type>(c.draw(4));
    }
    bool ok = true, replaced = false;
    auto expected = [&](int index, int type) -> cosim::function_parameter_value {
        replaced = true;
        if (index < 0 || index >= np) {
            ok = false;
            return 0;
        }
        const auto& p = td.parameters[static_cast<std::size_t>(index)];
        const auto it = values.find(index);
        const auto v = it == values.end() ? p.default_value : it->second;
        if (static_cast<int>(v.index()) != type) {
            ok = false;
            return 0;
        }
        if (it != values.end() && type == 1) {
            // a parameter of another type than its value may have limits of that other type
            if (p.type != cosim::function_parameter_type::integer) {
                ok = false;
                return 0;
            }
            if ((p.min_value && std::get<int>(v) < std::get<int>(*p.min_value)) || (p.max_value && std::get<int>(v) > std::get<int>(*p.max_value))) ok = false;
        }
        return v;
    };
    auto index = [&] { return c.chance(94) && np > 0 ? c.irange(0, np - 1) : c.chance(60) ? np : c.irange(-2, np + 2); };
    cosim::function_description want;
    bool odd = false; // a value of the wrong type, for which a parameter of that wrong type serves
    for (auto& [i, v] : values) odd = odd || (i >= 0 && i < np && static_cast<int>(v.index()) != static_cast<int>(td.parameters[static_cast<std::size_t>(i)].type));
    c.repeat(0, 3, 2, [&](int g) {
        cosim::function_io_group_description group;
        group.name = pbt::cat("g", g);
        auto w = group;
        auto count = [&](std::variant<int, function_parameter_placeholder>& a, std::variant<int, function_parameter_placeholder>& b) {
            if (c.chance(50)) {
                const auto i = index();
                a = function_parameter_placeholder{i};
                const auto v = expected(i, 1);
                b = ok ? std::get<int>(v) : 0;
            } else {
                a = c.irange(1, 5);
                b = a;
            }
        };
        count(group.count, w.count);
        c.repeat(0, 3, 2, [&](int k) {
            cosim::function_io_description io;
            io.name = pbt::cat("v", k);
            io.causality = c.chance(50) ? variable_causality::input : variable_causality::output;
            auto x = io;
            count(io.count, x.count);
            if (c.chance(40)) {
                const auto i = index();
                io.type = function_parameter_placeholder{i};
                const auto v = expected(i, 2);
                x.type = ok ? std::get<variable_type>(v) : variable_type::real;
            } else {
                io.type = static_cast<variable_type>(c.draw(4));
                x.type = io.type;
            }
            group.ios.push_back(io);
            w.ios.push_back(x);
        });
        td.io_groups.push_back(group);
        want.io_groups.push_back(w);
    });
    if (odd) c.discard(); // which values such a parameter takes is not said
    for (auto& [i, v] : values) c.note(pbt::cat("parameter ", i, " = ", show_param(v)));
    cosim::function_description got;
    bool threw = false;
    std::string message;
    try {
        got = cosim::substitute_function_parameters(td, values);
    } catch (const std::exception& e) {
        threw = true;
        message = e.what();
    }
    if (!ok) {
        c.label("refused substitution");
        PBT_REQUIRE("substitution-accepted", threw, "invalid parameters or placeholders were accepted");
    } else {
        c.label("substitution");
        PBT_REQUIRE("substitution-refused", !threw, message);
        same_description(got, want, "substituted-description");
    }
    if (replaced) c.nontrivial();
}

static void in_execution(pbt::test_case& c)
{
    clear_reports();
    gen_options o;
    o.minSlaves = 2;
    o.maxSlaves = 5;
    o.extraReal = 40;
    o.maxVars = 8;
    o.maxFunctions = 3;
    o.maxFactor = 4;
    o.connectionPercent = 85;
    auto s = gen_system(c, o);
    c.note(s.text());
    auto r = build(s, true);
    model m(s);
    int n = 0;
    c.repeat(1, 30, 9, [&](int) {
        r.exe->step();
        m.step();
        ++n;
    });
    c.note(pbt::cat(n, " steps"));
    check_reports();
    compare_steps(s, r, m, "function-target");
    bool through = false;
    for (auto& a : s.sf) {
        for (auto& b : s.fs) through |= a.fun == b.fun;
    }
    if (through) c.label("simulator - function - simulator");
    for (auto& b : s.fs) {
        c.label(s.funs[b.fun]->kind == fun_def::linear ? "linear in system" : s.funs[b.fun]->kind == fun_def::vector_sum ? "vector sum in system" : "custom in system");
        for (auto& a : s.sf) {
            if (a.fun == b.fun && s.factor(a.src) != s.factor(b.tgt)) c.label("function between different factors");
        }
    }
    if (through && n >= 2) c.nontrivial();
}

static void run(pbt::test_case& c)
{
    if (c.chance(65)) {
        in_execution(c);
    } else if (c.chance(25)) {
        substitution(c);
    } else {
        standalone(c);
    }
}

int main(int argc, char** argv)
{
    pbt::spec s;
    s.id = "C03";
    s.rule = "either a function type instantiated with random (in)valid parameters, random inputs, calculations and bad references, or a generated function type description with parameter values to be put in, or a generated co-simulation with up to three functions compared with a reference interpreter; non-trivial: every stand-alone case, descriptions with placeholders, and co-simulations of at least two steps with a simulator-function-simulator path";
    s.quick_cases = 90000;
    s.thorough_cases = 2000000;
    s.setup = setup_process;
    s.run = run;
    return pbt::main(argc, argv, s);
}
