#include "filelog.hpp"

using namespace filelog;

static void run(pbt::test_case& c)
{
    clear_reports();
    auto s = gen_system(c, log_options());
    rename_variables(c, s);
    const int ns = static_cast<int>(s.slaves.size());
    auto r = build(s, true);
    model m(s);
    const auto dir = fresh_dir();
    expectation e;
    e.s = &s;
    e.sims.resize(ns);
    c.note(s.text());
    std::optional<cosim::file_observer_config> config;
    if (c.chance(30)) {
        c.label("default configuration");
        for (int i = 0; i < ns; ++i) {
            e.sims[i].logged = true;
            for (int v = 0; v < s.slaves[i]->var_count(); ++v) {
                if (s.slaves[i]->var(v).causality != variable_causality::local) e.sims[i].vars.insert(v);
            }
        }
    } else {
        config.emplace();
        if (c.chance(30)) {
            e.stamped = false;
            config->set_timestamped_filenames(false);
            c.label("no time stamps");
        } else if (c.chance(20)) {
            config->set_timestamped_filenames(true);
        }
        if (c.chance(30)) {
            e.precision = c.irange(0, 12);
            config->fixed_precision(e.precision);
            c.note(pbt::cat("precision ", e.precision));
            c.label("fixed precision");
        }
        c.repeat(0, 5, ns * 0.9, [&](int) {
            if (c.chance(8)) {
                config->log_all_simulator_variables("nobody");
                return;
            }
            const int i = c.irange(0, ns - 1);
            auto& l = e.sims[i];
            std::optional<std::size_t> dec;
            if (c.chance(50)) dec = static_cast<std::size_t>(c.irange(1, 6));
            const auto& name = s.slaves[i]->name;
            if (c.chance(3)) {
                bool threw = false;
                try {
                    config->log_all_simulator_variables(name, 0);
                } catch (const std::exception&) {
                    threw = true;
                }
                PBT_REQUIRE("zero-decimation", threw, "decimation factor zero accepted");
                return;
            }
            // Several calls for a simulator: lists add up, and "all" prevails over earlier ones.
            const bool wasAll = l.logged && static_cast<int>(l.vars.size()) == s.slaves[i]->var_count();
            std::vector<std::string> names;
            std::vector<int> picked;
            if (c.chance(60)) {
                for (int v = 0; v < s.slaves[i]->var_count(); ++v) {
                    if (c.chance(50) && (!l.vars.count(v) || !l.logged)) picked.push_back(v);
                }
                c.shuffle(picked);
                for (int v : picked) names.push_back(s.slaves[i]->var(v).name);
            }
            if (l.logged && wasAll) return; // what this does is not documented
            if (l.logged && picked.empty()) {
                c.note(pbt::cat("log everything in ", name, " after all, with decimation ", dec ? std::to_string(*dec) : "default"));
                config->log_all_simulator_variables(name, dec);
                for (int v = 0; v < s.slaves[i]->var_count(); ++v) l.vars.insert(v);
                c.label("everything after a list");
            } else if (picked.empty()) {
                c.note(pbt::cat("log everything in ", name, " with decimation ", dec ? std::to_string(*dec) : "default"));
                if (c.chance(50)) config->log_all_simulator_variables(name, dec);
                else config->log_simulator_variables(name, {}, dec);
                for (int v = 0; v < s.slaves[i]->var_count(); ++v) l.vars.insert(v);
            } else {
                c.note(pbt::cat("log ", names.size(), " variables in ", name, " with decimation ", dec ? std::to_string(*dec) : "default"));
                config->log_simulator_variables(name, names, dec);
                l.vars.insert(picked.begin(), picked.end());
            }
            l.logged = true;
            l.decimation = static_cast<long>(dec.value_or(1));
        });
    }
    if (!e.stamped && c.chance(50)) {
        // left from an earlier run
        fs::create_directories(dir);
        for (int i = 0; i < ns; ++i) {
            if (!e.sims[i].logged) continue;
            std::ofstream(( dir / (s.slaves[i]->name + ".csv")).string()) << "Time,StepCount,old\n0,0,1\n";
            if (c.chance(50)) std::ofstream((dir / (s.slaves[i]->name + "_metadata.yaml")).string()) << "name: old\n";
        }
        c.label("old files");
        // An old metadata file of a simulator for which nothing is recorded remains.
    }
    auto obs = std::make_shared<cosim::file_observer>(dir, config);
    PBT_REQUIRE("log-path", obs->get_log_path() == dir, obs->get_log_path().string());
    if (c.chance(10)) {
        obs->stop_recording();
        e.recording = false;
        c.note("recording is off initially");
    }
    run_history(c, s, r, m, e, std::move(obs), dir, 14);
    fs::remove_all(dir);
}

int main(int argc, char** argv)
{
    pbt::spec s;
    s.id = "C13";
    s.rule = "a generated system, a file observer with a generated configuration (none, variable lists, all variables, decimation, fixed precision, with or without time stamps, old files present) and a sequence of steps and recording toggles; the log directory is parsed and compared with the model's history; non-trivial: at least three rows expected";
    s.quick_cases = 60000;
    s.thorough_cases = 600000;
    s.setup = setup_process;
    s.run = run;
    return pbt::main(argc, argv, s);
}
