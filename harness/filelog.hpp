// What a file_observer should have written, and whether it has.
#ifndef FILELOG_HPP
#define FILELOG_HPP

#include "sim.hpp"

#include <cosim/fs_portability.hpp>
#include <cosim/observer/file_observer.hpp>

#include <yaml-cpp/yaml.h>

#include <cmath>
#include <fstream>
#include <set>
#include <sstream>

namespace filelog
{
using namespace sim;
namespace fs = cosim::filesystem;

inline std::string slurp(const fs::path& p)
{
    std::ifstream f(p.string(), std::ios::binary);
    std::stringstream s;
    s << f.rdbuf();
    return s.str();
}

/// Splits CSV text into records of fields (RFC 4180 quoting).
inline std::vector<std::vector<std::string>> parse_csv(const std::string& text, const std::string& name)
{
    std::vector<std::vector<std::string>> r;
    std::vector<std::string> rec;
    std::string field;
    bool quoted = false, wasQuoted = false;
    for (std::size_t i = 0; i < text.size(); ++i) {
        const char ch = text[i];
        if (quoted) {
            if (ch == '"' && i + 1 < text.size() && text[i + 1] == '"') {
                field += '"';
                ++i;
            } else if (ch == '"') {
                quoted = false;
            } else {
                field += ch;
            }
        } else if (ch == '"' && field.empty() && !wasQuoted) {
            quoted = wasQuoted = true;
        } else if (ch == ',') {
            wasQuoted = false;
            rec.push_back(field);
            field.clear();
        } else if (ch == '\n') {
            if (!wasQuoted && !field.empty() && field.back() == '\r') field.pop_back();
            wasQuoted = false;
            rec.push_back(field);
            field.clear();
            r.push_back(rec);
            rec.clear();
        } else {
            field += ch;
        }
    }
    PBT_REQUIRE("incomplete-file", field.empty() && rec.empty() && !quoted, name, " ends in the middle of a line: ", pbt::quote(text.substr(text.size() > 100 ? text.size() - 100 : 0)));
    return r;
}

struct row
{
    long step;
    time_point t;
    std::vector<std::optional<value>> values; // by variable
};

struct sim_log
{
    bool logged = false;
    long decimation = 1;
    std::set<int> vars;
    std::vector<std::vector<row>> sessions;
    bool open = false; // a session is in progress
};

struct expectation
{
    const sysdef* s;
    bool stamped = true;
    int precision = -1;
    bool recording = true;
    std::vector<sim_log> sims;

    void observe(int i, const model& m, bool aligned)
    {
        auto& l = sims[i];
        if (!recording || !l.logged) return;
        if (!l.open) {
            l.sessions.emplace_back();
            l.open = true;
        }
        if (m.steps() % l.decimation != 0) return;
        row r{m.steps(), m.now(), {}};
        for (int v = 0; v < s->slaves[i]->var_count(); ++v) {
            if (aligned) r.values.emplace_back(m.read(i, v));
            else r.values.emplace_back();
        }
        l.sessions.back().push_back(r);
    }
    void stop()
    {
        recording = false;
        for (auto& l : sims) l.open = false;
    }
};

inline bool number_matches(const std::string& text, double v, int precision)
{
    char* end = nullptr;
    const double x = std::strtod(text.c_str(), &end);
    if (text.empty() || *end) return false;
    if (precision >= 0) {
        char b[400];
        std::snprintf(b, sizeof b, "%.*f", precision, v);
        return text == b;
    }
    return std::fabs(x - v) <= 6e-6 * std::fabs(v);
}

inline void check_metadata(const sysdef& s, int i, const sim_log& l, const fs::path& p)
{
    YAML::Node y;
    try {
        y = YAML::LoadFile(p.string());
    } catch (const std::exception& e) {
        pbt::fail("metadata", pbt::cat("cannot parse ", p.filename().string(), ": ", e.what()));
    }
    const auto& md = s.slaves[i]->md;
    const auto text = [](const YAML::Node& n) { return n.IsScalar() ? n.Scalar() : std::string(); };
    PBT_REQUIRE("metadata", text(y["name"]) == md.name && text(y["uuid"]) == md.uuid && text(y["author"]) == md.author && text(y["description"]) == md.description && text(y["version"]) == md.version,
        "model data in ", p.filename().string());
    std::set<int> seen;
    for (const auto& n : y["variables"]) {
        int found = -1;
        for (int v = 0; v < s.slaves[i]->var_count(); ++v) {
            if (s.slaves[i]->var(v).name == text(n["name"])) found = v;
        }
        PBT_REQUIRE("metadata", found >= 0 && l.vars.count(found), "unexpected variable ", text(n["name"]), " in ", p.filename().string());
        PBT_REQUIRE("metadata", seen.insert(found).second, "variable ", text(n["name"]), " repeated in ", p.filename().string());
        const auto& d = s.slaves[i]->var(found);
        PBT_REQUIRE("metadata", text(n["reference"]) == std::to_string(d.reference) && text(n["type"]) == cosim::to_text(d.type) && text(n["causality"]) == cosim::to_text(d.causality) &&
                text(n["variability"]) == cosim::to_text(d.variability),
            "wrong description of ", d.name, " in ", p.filename().string());
        const auto start = n["start value"];
        PBT_REQUIRE("metadata", start.IsDefined() == d.start.has_value(), "start value of ", d.name, " in ", p.filename().string());
        if (d.start) {
            const auto& x = *d.start;
            bool ok = false;
            switch (d.type) {
                case variable_type::real: ok = number_matches(text(start), std::get<double>(x), -1); break;
                case variable_type::integer: ok = text(start) == std::to_string(std::get<int>(x)); break;
                case variable_type::boolean: ok = text(start) == (std::get<bool>(x) ? "1" : "0") || text(start) == (std::get<bool>(x) ? "true" : "false"); break;
                default: ok = text(start) == std::get<std::string>(x);
            }
            PBT_REQUIRE("metadata", ok, "start value of ", d.name, " in ", p.filename().string(), " is ", pbt::quote(text(start)), ", expected ", show(x));
        }
    }
    PBT_REQUIRE("metadata", seen == l.vars, seen.size(), " variables in ", p.filename().string(), ", expected ", l.vars.size());
}

inline void check_section(const expectation& e, int i, const std::vector<std::vector<std::string>>& recs, const std::vector<row>& want, const std::string& name)
{
    const auto& def = *e.s->slaves[i];
    const auto& l = e.sims[i];
    const auto& h = recs.at(0);
    PBT_REQUIRE("header", h.size() >= 2 && h[0] == "Time" && h[1] == "StepCount", name, ": header starts with ", h[0]);
    std::map<std::size_t, int> column;
    std::set<int> seen;
    for (std::size_t k = 2; k < h.size(); ++k) {
        int found = -1;
        for (int v = 0; v < def.var_count(); ++v) {
            if (def.var(v).name == h[k]) found = v;
        }
        PBT_REQUIRE("header", found >= 0, name, ": unknown variable ", pbt::quote(h[k]), " in header");
        PBT_REQUIRE("wrong-variable", l.vars.count(found), name, ": variable ", h[k], " (", def.var(found).causality, ") should not have been logged");
        PBT_REQUIRE("header", seen.insert(found).second, name, ": variable ", h[k], " repeated in header");
        column[k] = found;
    }
    PBT_REQUIRE("missing-variable", seen == l.vars, name, ": ", seen.size(), " variables in header, expected ", l.vars.size());
    for (std::size_t k = 0; k < std::min(recs.size() - 1, want.size()); ++k) {
        const auto& got = recs[k + 1];
        const auto& w = want[k];
        PBT_REQUIRE("columns", got.size() == h.size(), name, ": row ", k, " has ", got.size(), " fields and the header ", h.size());
        PBT_REQUIRE("step-count", got[1] == std::to_string(w.step), name, ": row ", k, " has step number ", got[1], ", expected ", w.step);
        PBT_REQUIRE("time", number_matches(got[0], cosim::to_double_time_point(w.t), -1), name, ": row ", k, " has time ", got[0], ", expected ", show(w.t));
        for (auto& [col, v] : column) {
            if (!w.values[v]) continue;
            const auto& x = *w.values[v];
            bool ok = false;
            switch (def.var(v).type) {
                case variable_type::real: ok = number_matches(got[col], std::get<double>(x), e.precision); break;
                case variable_type::integer: ok = got[col] == std::to_string(std::get<int>(x)); break;
                case variable_type::boolean: ok = got[col] == (std::get<bool>(x) ? "1" : "0") || got[col] == (std::get<bool>(x) ? "true" : "false"); break;
                default: ok = got[col] == std::get<std::string>(x);
            }
            PBT_REQUIRE("value", ok, name, ": row ", k, " (step ", w.step, ") has ", pbt::quote(got[col]), " for ", def.var(v).name, ", expected ", show(x));
        }
    }
    PBT_REQUIRE("row-count", recs.size() - 1 == want.size(), name, ": ", recs.size() - 1, " rows, expected ", want.size());
}

inline void check_dir(const expectation& e, const fs::path& dir)
{
    std::map<std::string, std::vector<std::string>> byName; // prefix -> files
    std::set<std::string> files;
    if (fs::exists(dir)) {
        for (auto& f : fs::directory_iterator(dir)) files.insert(f.path().filename().string());
    }
    for (std::size_t i = 0; i < e.sims.size(); ++i) {
        const auto& l = e.sims[i];
        const auto& name = e.s->slaves[i]->name;
        if (!e.stamped) {
            const auto csv = name + ".csv", meta = name + "_metadata.yaml";
            if (l.sessions.empty()) {
                // an old file may have been emptied
                if (files.count(csv)) PBT_REQUIRE("unexpected-file", slurp(dir / csv).empty() || !l.logged, csv, " should be empty or not exist");
                if (l.logged) {
                    files.erase(csv);
                    files.erase(meta);
                }
                continue;
            }
            PBT_REQUIRE("missing-file", files.erase(csv) == 1, csv, " does not exist");
            PBT_REQUIRE("missing-file", files.erase(meta) == 1, meta, " does not exist");
            check_metadata(*e.s, static_cast<int>(i), l, dir / meta);
            const auto recs = parse_csv(slurp(dir / csv), csv);
            std::vector<std::vector<std::vector<std::string>>> sections;
            for (auto& r : recs) {
                if (r[0] == "Time") sections.emplace_back();
                PBT_REQUIRE("header", !sections.empty(), csv, " has no header");
                sections.back().push_back(r);
            }
            PBT_REQUIRE("session-count", sections.size() == l.sessions.size(), csv, " has ", sections.size(), " sections, expected ", l.sessions.size());
            for (std::size_t k = 0; k < sections.size(); ++k) check_section(e, static_cast<int>(i), sections[k], l.sessions[k], csv);
            continue;
        }
        std::vector<std::string> mine; // in alphabetical and thus chronological order
        const std::string pattern = name + "_";
        for (auto& f : files) {
            // name_YYYYMMDD_hhmmss_ffffff.csv
            if (f.size() == pattern.size() + 22 + 4 && f.compare(0, pattern.size(), pattern) == 0 && f.compare(f.size() - 4, 4, ".csv") == 0 &&
                f.substr(pattern.size(), 22).find_first_not_of("0123456789_") == std::string::npos) {
                mine.push_back(f);
            }
        }
        PBT_REQUIRE("session-count", mine.size() == l.sessions.size(), name, " has ", mine.size(), " log files, expected ", l.sessions.size());
        for (std::size_t k = 0; k < mine.size(); ++k) {
            files.erase(mine[k]);
            const auto meta = mine[k].substr(0, mine[k].size() - 4) + "_metadata.yaml";
            PBT_REQUIRE("missing-file", files.erase(meta) == 1, meta, " does not exist");
            check_metadata(*e.s, static_cast<int>(i), l, dir / meta);
            const auto recs = parse_csv(slurp(dir / mine[k]), mine[k]);
            PBT_REQUIRE("header", !recs.empty(), mine[k], " is empty");
            check_section(e, static_cast<int>(i), recs, l.sessions[k], mine[k]);
        }
    }
    PBT_REQUIRE("unexpected-file", files.empty(), "unexpected file ", files.empty() ? "" : *files.begin());
}

/// Variable names such as FMUs have.
inline void rename_variables(pbt::test_case& c, sysdef& s, bool controls = true)
{
    static const char* texts[] = {"", "Model: of something", "{b2c3}", "- a", "two\nlines", "a # b", "ends with:", "\\path \"x\"", "caf\xc3\xa9", "'", "true", "1.0"};
    for (auto& d : s.slaves) {
        for (auto t : {&d->md.name, &d->md.uuid, &d->md.description, &d->md.author, &d->md.version}) {
            if (c.chance(12)) *t = texts[c.draw(sizeof texts / sizeof texts[0] - 1)];
        }
        for (int v = 0; v < d->var_count(); ++v) {
            if (!c.chance(25)) continue;
            static const char* forms[] = {"body.x%d", "m[%d,2]", "der(p[1,2].q%d)", "a \"quoted\" %d", "x&y<z>%d", "\"q\"%d", "a: b %d #c", "-%d", "{%d}", "r%d\r", "n\n%d"};
            char b[60];
            std::snprintf(b, sizeof b, forms[c.draw(sizeof forms / sizeof forms[0] - (controls ? 1 : 3))], v);
            d->md.variables[v].name = b;
        }
    }
}

inline gen_options log_options()
{
    gen_options o;
    o.maxSlaves = 3;
    o.maxFunctions = 0;
    o.maxFactor = 4;
    o.maxVars = 8;
    o.threadCounts = {0, 0, 2};
    return o;
}

/// Runs a history with the observer in place and checks the outcome.
inline void run_history(pbt::test_case& c, const sysdef& s, running& r, model& m, expectation& e, std::shared_ptr<cosim::file_observer> obs, const fs::path& dir, int maxOps)
{
    const int ns = static_cast<int>(s.slaves.size());
    bool attached = false, init = false;
    long n = 0;
    auto attach = [&] {
        c.note(pbt::cat("add the observer after ", n, " steps"));
        r.exe->add_observer(obs);
        attached = true;
        if (init) {
            c.label("observer added during the simulation");
            for (int i = 0; i < ns; ++i) e.observe(i, m, n % m.factor(i) == 0);
        }
    };
    if (c.chance(85)) attach();
    c.repeat(1, maxOps, maxOps * 0.4, [&](int) {
        switch (c.weighted({50, 15, 15, 10, 10})) {
            case 0: {
                const int k = c.irange(1, 6);
                c.note(pbt::cat(k, " steps"));
                for (int j = 0; j < k; ++j) {
                    r.exe->step();
                    if (!init) {
                        m.initialize();
                        init = true;
                        if (attached) {
                            for (int i = 0; i < ns; ++i) e.observe(i, m, true);
                        }
                    }
                    m.step();
                    ++n;
                    if (attached) {
                        for (int i : m.finished()) e.observe(i, m, true);
                    }
                }
                check_reports();
                break;
            }
            case 1:
            case 2: {
                const bool start = !e.recording;
                c.note(start ? "start recording" : "stop recording");
                if (start) {
                    obs->start_recording();
                    e.recording = true;
                    c.label("recording resumed");
                } else {
                    obs->stop_recording();
                    e.stop();
                    if (attached) check_dir(e, dir);
                    c.label("recording stopped");
                }
                break;
            }
            case 3: {
                // wrong state
                bool threw = false;
                try {
                    e.recording ? obs->start_recording() : obs->stop_recording();
                } catch (const std::exception&) {
                    threw = true;
                }
                PBT_REQUIRE("wrong-state", threw, "no error when ", e.recording ? "starting" : "stopping", " twice");
                break;
            }
            default:
                if (!attached) attach();
        }
        PBT_REQUIRE("is-recording", obs->is_recording() == e.recording, "is_recording() is ", obs->is_recording());
    });
    if (!attached) attach();
    r.exe.reset();
    obs.reset();
    check_dir(e, dir);
    std::size_t rows = 0;
    for (auto& l : e.sims) {
        for (auto& x : l.sessions) rows += x.size();
        if (!l.logged) c.label("simulator not logged");
        if (l.sessions.size() > 1) c.label("several sessions");
        if (l.logged && l.decimation > 1) c.label("decimated log");
    }
    if (rows >= 3) c.nontrivial();
}

inline fs::path fresh_dir()
{
    const auto dir = fs::path(pbt::scratch()) / "log";
    fs::remove_all(dir);
    return dir;
}
} // namespace filelog
#endif
