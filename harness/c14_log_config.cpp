#include "filelog.hpp"

using namespace filelog;

namespace
{
std::string xml(const std::string& s)
{
    std::string r;
    for (char ch : s) {
        switch (ch) {
            case '&': r += "&amp;"; break;
            case '<': r += "&lt;"; break;
            case '>': r += "&gt;"; break;
            case '"': r += "&quot;"; break;
            default: r += ch;
        }
    }
    return r;
}

void run(pbt::test_case& c)
{
    clear_reports();
    auto s = gen_system(c, log_options());
    rename_variables(c, s, false);
    const int ns = static_cast<int>(s.slaves.size());
    auto r = build(s, true);
    model m(s);
    const auto dir = fresh_dir();
    const auto cfg = fs::path(pbt::scratch()) / "config.xml";
    expectation e;
    e.s = &s;
    e.sims.resize(ns);
    c.note(s.text());

    const bool invalid = c.chance(35);
    enum
    {
        none,
        unknown_variable,
        no_simulator_name,
        no_variable_name,
        bad_factor,
        bad_root,
        truncated,
        no_file
    } defect = none;
    if (invalid) defect = static_cast<decltype(defect)>(c.irange(1, 7));

    std::string text;
    if (c.chance(70)) text += "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n";
    const std::string ws = c.chance(80) ? "\n    " : "";
    auto comment = [&] {
        if (c.chance(10)) text += "<!-- <simulator name=\"" + s.slaves[0]->name + "\"/> -->";
    };
    comment();
    const std::string root = defect == bad_root ? c.one_of<const char*>({"simulator", "Simulators", "log", "x:simulators"}) : "simulators";
    text += "<" + root + (c.chance(70) ? " xmlns=\"http://opensimulationplatform.com/LogConfig\"" : "") + ">" + ws;
    bool placed = false; // whether the defect has been placed
    std::vector<int> order;
    for (int i = 0; i < ns; ++i) {
        if (c.chance(75)) order.push_back(i);
    }
    if (invalid && order.empty()) order.push_back(0);
    c.shuffle(order);
    auto factor_attr = [&](long& f, bool bad) {
        std::string a;
        if (bad) {
            a = c.one_of<const char*>({"0", "-1", "abc", "1.5", "", "2x", "99999999999999999999999"});
        } else if (c.chance(50)) {
            f = c.irange(1, 6);
            a = std::to_string(f);
            if (c.chance(8)) a = " " + a;
            if (c.chance(8)) a += "\n ";
        } else {
            return std::string();
        }
        return " decimationFactor=\"" + a + "\"";
    };
    for (std::size_t k = 0; k < order.size(); ++k) {
        const int i = order[k];
        auto& l = e.sims[i];
        l.logged = true;
        const bool here = invalid && !placed && (k + 1 == order.size() || c.chance(50));
        comment();
        text += "<simulator";
        const bool badFactor = here && defect == bad_factor;
        const bool nameFirst = c.chance(70);
        const auto f = factor_attr(l.decimation, badFactor);
        const auto n = here && defect == no_simulator_name ? std::string() : " name=\"" + xml(s.slaves[i]->name) + "\"";
        text += nameFirst ? n + f : f + n;
        text += ">" + ws;
        std::vector<int> vars;
        for (int v = 0; v < s.slaves[i]->var_count(); ++v) {
            if (c.chance(50)) vars.push_back(v);
        }
        c.shuffle(vars);
        if (c.chance(20)) vars.clear();
        for (int v : vars) {
            comment();
            text += "<variable name=\"" + xml(s.slaves[i]->var(v).name) + "\"" + (c.chance(70) ? "/>" : "></variable>") + ws;
            l.vars.insert(v);
        }
        if (vars.empty()) {
            for (int v = 0; v < s.slaves[i]->var_count(); ++v) l.vars.insert(v);
            c.label("all variables");
        }
        if (here && defect == unknown_variable) text += "<variable name=\"no such variable\"/>";
        if (here && defect == no_variable_name) text += c.chance(50) ? "<variable/>" : "<variable ref=\"v0\"/>";
        text += "</simulator>";
        text += ws;
        if (here) placed = true;
    }
    if (c.chance(15)) {
        text += "<simulator name=\"nobody\"><variable name=\"nothing\"/></simulator>" + ws;
        c.label("simulator which does not exist");
    }
    text += "</" + root + ">" + (c.chance(50) ? "\n" : "");
    if (defect == truncated) text.resize(static_cast<std::size_t>(c.irange(0, static_cast<int>(text.rfind("</")))));
    c.note(text);
    fs::remove(cfg);
    if (defect != no_file) std::ofstream(cfg.string(), std::ios::binary) << text;

    bool threw = false;
    std::string msg;
    std::shared_ptr<cosim::file_observer> obs;
    try {
        if (c.chance(50)) obs = std::make_shared<cosim::file_observer>(dir, cfg);
        else obs = std::make_shared<cosim::file_observer>(dir, cosim::file_observer_config::parse(cfg));
        if (defect == unknown_variable) r.exe->add_observer(obs);
    } catch (const std::exception& ex) {
        threw = true;
        msg = ex.what();
    }
    if (invalid) {
        static const char* names[] = {"", "unknown variable", "no simulator name", "no variable name", "bad decimation factor", "wrong root element", "truncated", "no file"};
        PBT_REQUIRE(pbt::cat("accepted-", names[defect]), threw, names[defect], " was not reported");
        c.label(pbt::cat("refused: ", names[defect]));
        c.nontrivial();
        // The simulation itself goes on without trouble
        r.exe->step();
        check_reports();
        r.exe.reset();
        fs::remove_all(dir);
        return;
    }
    PBT_REQUIRE("refused-valid", !threw, "valid configuration refused: ", msg);
    run_history(c, s, r, m, e, std::move(obs), dir, 8);
    fs::remove_all(dir);
}
} // namespace

int main(int argc, char** argv)
{
    pbt::spec s;
    s.id = "C14";
    s.rule = "a generated XML logging configuration for a generated system (subsets of simulators and variables, decimation factors, comments, escapes), valid or with one of seven kinds of defects, and a short simulation whose log directory is compared with the model's history; non-trivial: at least three rows expected, or a defect";
    s.quick_cases = 50000;
    s.thorough_cases = 800000;
    s.setup = setup_process;
    s.run = run;
    return pbt::main(argc, argv, s);
}
