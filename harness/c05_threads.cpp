#include "sim.hpp"

#include <thread>

using namespace sim;

namespace
{
unsigned processors = 8; // of the machine that the execution believes it runs on
}
// (0 if it can't be found out)
unsigned int std::thread::hardware_concurrency() noexcept { return processors; }

namespace
{
struct result
{
    std::vector<std::vector<event>> logs;
    std::vector<note> notes;
};

result run_once(const sysdef& s, int steps, int jitter, std::uint64_t seed, bool until)
{
    auto r = build(s, true);
    for (std::size_t i = 0; i < r.slaves.size(); ++i) r.slaves[i]->set_jitter(jitter, seed + i);
    auto obs = std::make_shared<rec_observer>();
    // All the steps belonging to a base step must be over when it is reported complete.
    std::int64_t lastReport = 0;
    long n = 0;
    obs->onNote = [&](const note& x) {
        if (x.kind != note::step && x.kind != note::sim_step) return;
        if (x.kind == note::step) ++n;
        const auto now = next_seq();
        const long k = x.kind == note::step ? n : n + 1;
        for (std::size_t i = 0; i < r.slaves.size(); ++i) {
            const auto f = s.factor(static_cast<int>(i));
            if (r.slaves[i]->steps_done() != (k + f - 1) / f) {
                report("incomplete-step", pbt::cat(s.slaves[i]->name, " has finished ", r.slaves[i]->steps_done(), " steps when base step ", k, " is reported complete (factor ", f, ")"));
            }
        }
        lastReport = now;
    };
    r.exe->add_observer(obs);
    model m(s);
    for (int i = 0; i < steps; ++i) m.step();
    if (until) {
        PBT_REQUIRE("until-result", r.exe->simulate_until(s.start + s.base * steps), "false");
    } else {
        for (int i = 0; i < steps; ++i) r.exe->step();
    }
    check_reports();
    compare_steps(s, r, m, "threads");
    result x;
    for (auto& sl : r.slaves) x.logs.push_back(sl->log());
    x.notes = obs->log;
    r.exe.reset();
    r.algo.reset();
    return x;
}

void run(pbt::test_case& c)
{
    clear_reports();
    gen_options o;
    o.minSlaves = 2;
    o.maxSlaves = 8;
    o.maxFunctions = 1;
    o.maxVars = 5;
    o.maxFactor = 3;
    o.connectionPercent = 80;
    o.initialValues = true;
    auto s = gen_system(c, o);
    const int steps = c.irange(1, 8);
    const bool until = c.chance(50);
    c.note(s.text());
    c.note(pbt::cat(steps, " steps"));
    const unsigned counts[] = {0, 1, 2, 3, 4, 7, 16};
    std::vector<std::optional<unsigned>> tc = {0u};
    tc.push_back(counts[c.draw(6)]);
    if (c.chance(30)) tc.push_back(std::nullopt);
    std::optional<result> first;
    for (auto t : tc) {
        s.threads = t;
        processors = c.one_of<unsigned>({8, 1, 2, 3, 0, 64});
        const int jitter = c.chance(60) ? c.irange(1, 60) : 0;
        c.note(pbt::cat("worker threads ", t ? std::to_string(*t) : "default", " of ", processors, " processors, jitter ", jitter));
        auto x = run_once(s, steps, jitter, c.draw(1000), until);
        if (!first) {
            first = x;
            continue;
        }
        for (std::size_t i = 0; i < s.slaves.size(); ++i) {
            const auto &a = first->logs[i], &b = x.logs[i];
            PBT_REQUIRE("call-sequence", a.size() == b.size(), s.slaves[i]->name, ": ", a.size(), " calls without and ", b.size(), " with worker threads");
            for (std::size_t k = 0; k < a.size(); ++k) {
                bool same = a[k].kind == b[k].kind && a[k].t == b[k].t && a[k].dt == b[k].dt && a[k].snapshot == b[k].snapshot;
                // the order of values within one call is of no consequence
                std::map<int, value> sa(a[k].sets.begin(), a[k].sets.end()), sb(b[k].sets.begin(), b[k].sets.end());
                PBT_REQUIRE("call-sequence", same && sa == sb, s.slaves[i]->name, ": call ", k, " (", to_string(a[k].kind), ") differs");
            }
        }
        PBT_REQUIRE("notifications", first->notes.size() == x.notes.size(), "number of notifications");
        for (std::size_t k = 0; k < x.notes.size(); ++k) {
            PBT_REQUIRE("notifications", show(first->notes[k]) == show(x.notes[k]), "notification ", k, ": ", show(first->notes[k]), " / ", show(x.notes[k]));
        }
    }
    if (tc.size() > 2) c.label("default thread count");
    if (tc[1] && *tc[1] > s.slaves.size()) c.label("more threads than slaves");
    if ((!tc[1] || *tc[1] > 0) && steps > 1) c.nontrivial();
}
} // namespace

int main(int argc, char** argv)
{
    pbt::spec s;
    s.id = "C05";
    s.rule = "a generated system run with no worker threads and again with random numbers of them on machines with various numbers of processors, with random delays in the slaves, under ThreadSanitizer; call logs and notifications are compared with each other and with a reference interpreter; non-trivial: some worker threads and more than one step";
    s.quick_cases = 12000;
    s.thorough_cases = 200000;
    s.hang_seconds = 40;
    s.attempts = 40;
    s.setup = setup_process;
    s.run = run;
    s.sound_tags = {"tsan:"};
    return pbt::main(argc, argv, s);
}
