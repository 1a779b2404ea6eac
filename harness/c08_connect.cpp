#include "sim.hpp"

using namespace sim;

namespace
{
struct endpoint
{
    bool fun = false;
    cosim::variable_id var{};
    cosim::function_io_id io{};
    std::string text() const
    {
        if (fun) return pbt::cat("f", io.function, "(", io.type, ": ", io.reference.group, ",", io.reference.group_instance, ",", io.reference.io, ",", io.reference.io_instance, ")");
        return pbt::cat("s", var.simulator, "(", var.type, " ", var.reference, ")");
    }
};

const std::initializer_list<variable_causality> sources = {variable_causality::output, variable_causality::calculated_parameter};

/// Spoils an endpoint in some way (or not).
void mutate(pbt::test_case& c, const sysdef& s, endpoint& e)
{
    auto type = [&](variable_type t) {
        return static_cast<variable_type>((static_cast<int>(t) + 1 + c.draw(3)) % 5); // includes enumeration
    };
    if (e.fun) {
        switch (c.draw(5)) {
            case 0: e.io.type = type(e.io.type); break;
            case 1: e.io.function = c.chance(50) ? static_cast<int>(s.funs.size()) + c.irange(0, 2) : -1; break;
            case 2: e.io.reference.group += c.chance(50) ? 1 : -1; break;
            case 3: e.io.reference.group_instance += c.chance(50) ? 1 : -1; break;
            case 4: e.io.reference.io += c.chance(50) ? 1 : -1; break;
            case 5: e.io.reference.io_instance += c.chance(50) ? 1 : -1; break;
        }
    } else {
        switch (c.draw(2)) {
            case 0: e.var.type = type(e.var.type); break;
            case 1: e.var.simulator = c.chance(50) ? static_cast<int>(s.slaves.size()) + c.irange(0, 2) : -1; break;
            case 2: e.var.reference += c.chance(50) ? 1 : -1; break;
        }
    }
}

/// What the endpoint refers to; null if nothing
struct resolved
{
    bool ok = false;
    int owner = -1, var = -1;
    fun_io io{};
    variable_type type{};
    bool source = false, target = false;
};

resolved resolve(const sysdef& s, const endpoint& e)
{
    resolved r;
    if (e.fun) {
        if (e.io.function < 0 || e.io.function >= static_cast<int>(s.funs.size())) return r;
        const auto& q = e.io.reference;
        for (auto& io : s.funs[e.io.function]->ios()) {
            if (io.ref.group != q.group || io.ref.groupInstance != q.group_instance || io.ref.io != q.io || io.ref.ioInstance != q.io_instance || io.type != e.io.type) continue;
            r.ok = true;
            r.owner = e.io.function;
            r.io = io;
            r.type = io.type;
            r.target = io.input;
            r.source = !io.input;
        }
        return r;
    }
    if (e.var.simulator < 0 || e.var.simulator >= static_cast<int>(s.slaves.size())) return r;
    const int v = s.slaves[e.var.simulator]->find(e.var.type, e.var.reference);
    if (v < 0) return r;
    r.ok = true;
    r.owner = e.var.simulator;
    r.var = v;
    r.type = e.var.type;
    const auto ca = s.slaves[r.owner]->var(v).causality;
    r.source = ca == variable_causality::output || ca == variable_causality::calculated_parameter;
    r.target = ca == variable_causality::input;
    return r;
}

void run(pbt::test_case& c)
{
    clear_reports();
    gen_options o;
    o.maxSlaves = 4;
    o.maxFunctions = 3;
    o.maxFactor = 3;
    o.connectionPercent = 0;
    o.threadCounts = {0, 0, 2};
    auto s = gen_system(c, o);
    s.ss.clear();
    s.sf.clear();
    s.fs.clear();
    c.note(s.text());
    auto r = build(s, false);
    auto obs = std::make_shared<rec_observer>();
    r.exe->add_observer(obs);
    model m(s);
    std::vector<std::pair<cosim::variable_id, cosim::variable_id>> accepted;
    int ok = 0, refused = 0;
    long n = 0;

    std::vector<endpoint> outs, ins, others;
    for (int i = 0; i < static_cast<int>(s.slaves.size()); ++i) {
        for (int v = 0; v < s.slaves[i]->var_count(); ++v) {
            endpoint e;
            e.var = s.vid(i, v);
            const auto q = resolve(s, e);
            (q.source ? outs : q.target ? ins : others).push_back(e);
        }
    }
    for (int f = 0; f < static_cast<int>(s.funs.size()); ++f) {
        for (auto& io : s.funs[f]->ios()) {
            endpoint e;
            e.fun = true;
            e.io = s.fid(f, io);
            (io.input ? ins : outs).push_back(e);
        }
    }
    auto any = [&]() -> endpoint {
        std::vector<endpoint>* l[] = {&outs, &ins, &others};
        auto& v = *l[c.draw(2)];
        if (v.empty()) return endpoint{};
        return c.pick(v);
    };

    auto attempt = [&] {
        endpoint src, tgt;
        // mostly matching pairs
        const int how = c.weighted({55, 25, 10, 10});
        if (ins.empty() || outs.empty() || how == 3) {
            src = any();
            tgt = any();
        } else {
            tgt = c.pick(ins);
            const auto t = resolve(s, tgt).type;
            std::vector<endpoint> match;
            for (auto& e : outs) {
                if (resolve(s, e).type == t && !(e.fun && tgt.fun)) match.push_back(e);
            }
            if (match.empty()) return;
            src = c.pick(match);
            if (how == 1) {
                if (c.chance(50)) mutate(c, s, src);
                else mutate(c, s, tgt);
            }
            if (how == 2) std::swap(src, tgt);
        }
        if (src.fun && tgt.fun) return; // cannot even be expressed
        const auto a = resolve(s, src), b = resolve(s, tgt);
        bool expect = a.ok && b.ok && a.source && b.target && a.type == b.type && a.type != variable_type::enumeration;
        std::string why = !a.ok ? "no such source" : !b.ok ? "no such target" : !a.source ? "not a source" : !b.target ? "not a target" : a.type != b.type ? "types differ" : "";
        if (expect && (tgt.fun ? s.io_used(b.owner, b.io.ref) : s.input_used(b.owner, b.var))) {
            expect = false;
            why = "already connected";
        }
        // The harness must not make algebraic loops: skip those connections
        if (expect) {
            auto copy = s;
            if (src.fun) copy.fs.push_back({a.owner, a.io, b.owner, b.var});
            else if (tgt.fun) copy.sf.push_back({a.owner, a.var, b.owner, b.io});
            else copy.ss.push_back({a.owner, a.var, b.owner, b.var});
            if (copy.has_algebraic_loop()) return;
        }
        c.note(pbt::cat("connect ", src.text(), " -> ", tgt.text(), expect ? "" : " (refusal expected: " + why + ")"));
        bool done = false;
        std::string msg;
        try {
            if (src.fun) r.exe->connect_variables(src.io, tgt.var);
            else if (tgt.fun) r.exe->connect_variables(src.var, tgt.io);
            else r.exe->connect_variables(src.var, tgt.var);
            done = true;
        } catch (const std::exception& e) {
            msg = e.what();
        }
        check_reports();
        PBT_REQUIRE("accepted-invalid", expect || !done, src.text(), " -> ", tgt.text(), " was accepted: ", why);
        PBT_REQUIRE("refused-valid", !expect || done, src.text(), " -> ", tgt.text(), " was refused: ", msg);
        if (!done) {
            ++refused;
            c.label("refused: " + why);
            return;
        }
        ++ok;
        c.label(src.fun ? "accepted function -> simulator" : tgt.fun ? "accepted simulator -> function" : "accepted simulator -> simulator");
        if (src.fun) {
            s.fs.push_back({a.owner, a.io, b.owner, b.var});
            m.fs = s.fs;
        } else if (tgt.fun) {
            s.sf.push_back({a.owner, a.var, b.owner, b.io});
            m.sf = s.sf;
        } else {
            s.ss.push_back({a.owner, a.var, b.owner, b.var});
            m.ss = s.ss;
            accepted.emplace_back(src.var, tgt.var);
        }
    };
    auto simulate = [&](int k) {
        for (int i = 0; i < k; ++i) {
            r.exe->step();
            m.step();
            ++n;
        }
        check_reports();
        compare_steps(s, r, m, "behaviour");
    };
    c.repeat(1, 14, 7, [&](int) { attempt(); });
    simulate(c.irange(1, 6));
    // also while the simulation is in progress
    c.repeat(0, 4, 1, [&](int) { attempt(); });
    simulate(c.irange(1, 6));

    std::vector<std::pair<cosim::variable_id, cosim::variable_id>> seen;
    for (auto& x : obs->log) {
        if (x.kind == note::connected) seen.emplace_back(x.a, x.b);
        PBT_REQUIRE("observer", x.kind != note::disconnected && x.kind != note::removed, show(x));
    }
    PBT_REQUIRE("observer-connections", seen == accepted, "observers were told of ", seen.size(), " connections, ", accepted.size(), " were made");
    if (ok > 0 && refused > 0) c.nontrivial();
}
} // namespace

int main(int argc, char** argv)
{
    pbt::spec s;
    s.id = "C08";
    s.rule = "a generated system without connections and a sequence of attempted connections, valid, spoiled in one respect (index, reference, type, group, instance), reversed or arbitrary, before and during the simulation, which is compared with the model of the accepted ones; non-trivial: at least one accepted and one refused";
    s.quick_cases = 60000;
    s.thorough_cases = 1500000;
    s.setup = setup_process;
    s.run = run;
    return pbt::main(argc, argv, s);
}
