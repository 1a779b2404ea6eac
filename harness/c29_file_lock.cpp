// C29: file locks provide shared/exclusive exclusion across threads and processes.
#include "actors.hpp"
#include "fstree.hpp"

#include <cosim/utility/concurrency.hpp>

#include <atomic>
#include <memory>
#include <sys/mman.h>

using cosim::utility::file_lock;
using cosim::utility::file_lock_initial_state;
namespace fs = std::filesystem;

namespace
{

enum op
{
    op_create, // slot, path, initial state
    op_lock, // slot, mode, try
    op_unlock, // slot, mode
    op_destroy, // slot
    op_move_construct, // from, to
    op_move_assign, // from, to
    op_stress, // seed, rounds
};
constexpr int slots = 4;

struct shared_counters
{
    std::atomic<int> writers[2];
    std::atomic<int> readers[2];
    std::atomic<int> errors;
};

shared_counters* counters = nullptr;
std::vector<std::vector<std::string>> paths; // per file, the paths by which it is known

struct rng_lite
{
    std::uint64_t s;
    int operator()(int n) { return static_cast<int>((pbt::rng(s += 0x9e37).next() >> 20) % static_cast<unsigned>(n)); }
};

/// Random locking as fast as it goes, checking that nobody is where they must not be.
int stress(int seed, int rounds, int files)
{
    rng_lite r{static_cast<std::uint64_t>(seed) * 7919};
    std::vector<std::unique_ptr<file_lock>> mine(static_cast<std::size_t>(files));
    int got = 0;
    for (int i = 0; i < rounds; ++i) {
        std::vector<std::pair<int, bool>> held;
        for (int f = 0; f < files; ++f) { // always in this order
            if (r(3) == 0) continue;
            auto& m = mine[static_cast<std::size_t>(f)];
            const auto& ps = paths[static_cast<std::size_t>(f)];
            const bool exclusive = r(2);
            const bool tryIt = r(3) == 0;
            bool ok = true;
            const auto& path = ps[static_cast<std::size_t>(r(static_cast<int>(ps.size())))];
            if (!m || r(3) == 0) {
                m.reset();
                if (!tryIt && r(2)) m = std::make_unique<file_lock>(path, exclusive ? file_lock_initial_state::locked : file_lock_initial_state::locked_shared);
                else {
                    m = std::make_unique<file_lock>(path);
                    if (tryIt) ok = exclusive ? m->try_lock() : m->try_lock_shared();
                    else exclusive ? m->lock() : m->lock_shared();
                }
            } else if (tryIt) ok = exclusive ? m->try_lock() : m->try_lock_shared();
            else exclusive ? m->lock() : m->lock_shared();
            if (!ok) continue;
            ++got;
            if (exclusive) {
                if (counters->writers[f].fetch_add(1) != 0) ++counters->errors;
                if (counters->readers[f].load() != 0) ++counters->errors;
            } else {
                counters->readers[f].fetch_add(1);
                if (counters->writers[f].load() != 0) ++counters->errors;
            }
            held.push_back({f, exclusive});
        }
        if (!held.empty()) switch (r(4)) {
                case 0: std::this_thread::yield(); break;
                case 1: std::this_thread::sleep_for(std::chrono::microseconds(r(100))); break;
                default:;
            }
        for (auto [f, exclusive] : held) {
            auto& m = mine[static_cast<std::size_t>(f)];
            if (exclusive) {
                if (counters->writers[f].load() != 1 || counters->readers[f].load() != 0) ++counters->errors;
                counters->writers[f].fetch_sub(1);
            } else {
                if (counters->writers[f].load() != 0) ++counters->errors;
                counters->readers[f].fetch_sub(1);
            }
            switch (r(4)) {
                case 0: m.reset(); break;
                case 1: {
                    file_lock other(std::move(*m));
                    m.reset();
                    break;
                }
                default: exclusive ? m->unlock() : m->unlock_shared();
            }
        }
    }
    return got;
}

actors::handler make_handler(int, int)
{
    auto locks = std::make_shared<std::vector<std::unique_ptr<file_lock>>>(slots);
    return [locks](const actors::message& in, actors::message& out) {
        auto& l = *locks;
        const auto a = static_cast<std::size_t>(in.args[0]);
        out.op = 1;
        switch (in.op) {
            case op_create:
                l[a] = std::make_unique<file_lock>(in.get(), in.args[1] == 0 ? file_lock_initial_state::not_locked : in.args[1] == 1 ? file_lock_initial_state::locked : file_lock_initial_state::locked_shared);
                break;
            case op_lock:
                if (in.args[2]) out.op = in.args[1] == 1 ? l[a]->try_lock() : l[a]->try_lock_shared();
                else in.args[1] == 1 ? l[a]->lock() : l[a]->lock_shared();
                break;
            case op_unlock:
                in.args[1] == 1 ? l[a]->unlock() : l[a]->unlock_shared();
                break;
            case op_destroy: l[a].reset(); break;
            case op_move_construct:
                l[static_cast<std::size_t>(in.args[1])] = std::make_unique<file_lock>(std::move(*l[a]));
                l[a].reset();
                break;
            case op_move_assign:
                *l[static_cast<std::size_t>(in.args[1])] = std::move(*l[a]);
                l[a].reset();
                break;
            case op_stress:
                out.op = stress(in.args[0], in.args[1], in.args[2]);
                break;
        }
    };
}

struct lock_object
{
    int file = -1; // none
    int mode = 0; // 0 unlocked, 1 exclusive, 2 shared
};
struct pending
{
    int slot, file, mode;
};

std::vector<bool> existed;

void make_files(pbt::test_case& c, int files)
{
    const auto dir = fstree::fresh("locks");
    fs::create_directories(dir / "sub");
    paths.assign(static_cast<std::size_t>(files), {});
    existed.assign(static_cast<std::size_t>(files), false);
    for (int f = 0; f < files; ++f) {
        const auto name = "f" + std::to_string(f);
        const auto p = dir / name;
        auto& ps = paths[static_cast<std::size_t>(f)];
        ps.push_back(p.string());
        const bool exists = c.chance(50);
        existed[static_cast<std::size_t>(f)] = exists;
        if (exists) fstree::spit(p, "contents");
        if (c.chance(50)) ps.push_back((dir / "sub" / ".." / name).string());
        if (c.chance(40)) {
            fs::create_symlink(p, dir / ("link" + name));
            ps.push_back((dir / ("link" + name)).string());
        }
        if (exists && c.chance(40)) {
            fs::create_hard_link(p, dir / ("hard" + name));
            ps.push_back((dir / ("hard" + name)).string());
        }
        if (c.chance(30)) ps.push_back(p.lexically_relative(fs::current_path()).string());
    }
}

void check_files()
{
    for (std::size_t f = 0; f < paths.size(); ++f)
        if (existed[f] || fs::exists(paths[f][0])) {
            const auto t = fstree::slurp(paths[f][0]);
            PBT_REQUIRE("modified", t == (existed[f] ? "contents" : ""), "the lock file contains ", pbt::quote(t));
        }
}

void run_history(pbt::test_case& c)
{
    const int files = c.irange(1, 2);
    const int processes = c.irange(1, 3);
    const int threads = c.irange(1, 3);
    make_files(c, files);
    actors::cast cast(processes, threads, make_handler);
    const int n = cast.count();
    c.note(pbt::cat("history with ", processes, " processes of ", threads, " threads, ", files, " files"));
    std::vector<std::array<lock_object, slots>> objects(static_cast<std::size_t>(n));
    std::map<int, pending> waiting; // actor -> request
    bool contended = false, shared = false;
    int killed = 0;

    auto holders = [&](int f, int mode) {
        int k = 0;
        for (auto& o : objects)
            for (auto& l : o)
                if (l.file == f && l.mode == mode) ++k;
        return k;
    };
    auto permitted = [&](int f, int mode) { return holders(f, 1) == 0 && (mode == 2 || holders(f, 2) == 0); };
    auto pending_on = [&](int f, int mode) {
        int k = 0;
        for (auto& [a, w] : waiting)
            if (w.file == f && (mode == 0 || w.mode == mode)) ++k;
        return k;
    };
    auto granted = [&](int a, const actors::message& m) {
        const auto w = waiting.at(a);
        if (m.op < 0) pbt::fail("threw", pbt::cat("a blocking lock operation threw: ", m.get()));
        if (!permitted(w.file, w.mode))
            pbt::fail("exclusion", pbt::cat("actor ", a, " got file ", w.file, w.mode == 1 ? " exclusively" : " shared", " while it was held ", holders(w.file, 1) ? "exclusively" : "shared", " by another"));
        c.note(pbt::cat("  actor ", a, " got file ", w.file));
        objects[static_cast<std::size_t>(a)][static_cast<std::size_t>(w.slot)] = {w.file, w.mode};
        waiting.erase(a);
        if (w.mode == 2 && holders(w.file, 2) > 1) shared = true;
    };
    auto settle = [&](double patience) {
        for (;;) {
            bool mustGrant = false;
            for (int f = 0; f < files; ++f) {
                const bool free = holders(f, 1) + holders(f, 2) == 0;
                if (pending_on(f, 0) > 0 && (free || (holders(f, 1) == 0 && pending_on(f, 1) == 0))) mustGrant = true;
            }
            if (waiting.empty()) return;
            std::vector<int> who;
            for (auto& [a, w] : waiting) who.push_back(a);
            actors::message m;
            const int a = cast.await(who, mustGrant ? 10 : patience, m);
            if (a < 0) {
                if (mustGrant) pbt::fail("not-granted", "a lock that nobody holds any more is not granted to those who wait for it");
                return;
            }
            granted(a, m);
        }
    };
    auto release = [&](int a, int slot, int how) { // how: 0 unlock, 1 destroy
        auto& l = objects[static_cast<std::size_t>(a)][static_cast<std::size_t>(slot)];
        actors::message q;
        q.op = how == 0 ? op_unlock : op_destroy;
        q.args[0] = slot;
        q.args[1] = l.mode;
        const auto f = l.file;
        c.note(pbt::cat("actor ", a, how == 0 ? " unlocks" : " destroys", " its lock on file ", f));
        const int before = l.mode;
        l.mode = 0; // from here on others may get it
        if (how == 1) l.file = -1;
        const auto r = cast.ask(a, q, "unlock");
        (void)before;
        if (r.op < 0) pbt::fail("threw", "unlocking threw: " + r.get());
        settle(0);
    };

    c.repeat(1, c.sized(10, 50), c.sized(6, 25), [&](int) {
        std::vector<int> idle;
        for (int a = 0; a < n; ++a)
            if (!waiting.count(a) && cast.alive(a)) idle.push_back(a);
        if (idle.empty()) {
            if (killed < processes && !waiting.empty()) pbt::fail("harness", "everybody waits");
            return;
        }
        const int a = c.pick(idle);
        if (killed + 1 < processes && c.chance(3)) {
            // A process dies, whatever its threads are doing.
            const int p = cast.process(a);
            c.note(pbt::cat("process ", p, " is killed"));
            c.label("killed");
            for (int b = 0; b < n; ++b)
                if (cast.process(b) == p) {
                    objects[static_cast<std::size_t>(b)] = {};
                    waiting.erase(b);
                }
            cast.kill_process(p);
            ++killed;
            settle(0);
            return;
        }
        auto& mine = objects[static_cast<std::size_t>(a)];
        auto held = [&](int f) {
            for (auto& l : mine)
                if (l.file == f && l.mode) return true;
            return false;
        };
        const int slot = c.irange(0, slots - 1);
        auto& l = mine[static_cast<std::size_t>(slot)];
        actors::message q;
        q.args[0] = slot;
        if (l.file < 0) {
            const int f = c.irange(0, files - 1);
            q.op = op_create;
            q.set(c.pick(paths[static_cast<std::size_t>(f)]));
            int initial = c.weighted({3, 1, 1});
            bool above = false;
            for (int g = f; g < files; ++g) above = above || held(g);
            if (above) initial = 0;
            q.args[1] = initial;
            c.note(pbt::cat("actor ", a, " makes lock ", slot, " on file ", f, initial == 1 ? ", locked" : initial == 2 ? ", locked shared" : ""));
            if (initial == 0) {
                const auto r = cast.ask(a, q, "construction");
                if (r.op < 0) pbt::fail("threw", "construction threw: " + r.get());
                l = {f, 0};
                return;
            }
            waiting[a] = {slot, f, initial};
            if (!permitted(f, initial)) contended = true;
            cast.tell(a, q);
            settle(c.chance(50) ? 0.002 : 0);
            return;
        }
        if (l.mode) {
            if (c.chance(15)) { // moved while locked
                const int to = c.irange(0, slots - 1);
                if (to == slot) return;
                auto& t = mine[static_cast<std::size_t>(to)];
                q.op = t.file < 0 ? op_move_construct : op_move_assign;
                q.args[1] = to;
                c.note(pbt::cat("actor ", a, " moves lock ", slot, " (held) to ", to, t.file < 0 ? " (new)" : t.mode ? " (held)" : " (not held)"));
                c.label("moved");
                t = l; // what t held is released
                l = {};
                const auto r = cast.ask(a, q, "move");
                if (r.op < 0) pbt::fail("threw", "moving threw: " + r.get());
                settle(0);
                return;
            }
            release(a, slot, c.chance(25));
            return;
        }
        // an unlocked object
        const int f = l.file;
        if (held(f)) return; // precondition
        switch (c.weighted({4, 5, 1})) {
            case 0: { // blocking
                for (int g = f; g < files; ++g)
                    if (held(g)) return; // so that nobody can deadlock
                q.op = op_lock;
                q.args[1] = c.irange(1, 2);
                q.args[2] = 0;
                c.note(pbt::cat("actor ", a, " locks file ", f, q.args[1] == 1 ? "" : " shared"));
                waiting[a] = {slot, f, q.args[1]};
                if (!permitted(f, q.args[1])) contended = true;
                cast.tell(a, q);
                settle(c.chance(50) ? 0.002 : 0);
                return;
            }
            case 1: { // try
                q.op = op_lock;
                q.args[1] = c.irange(1, 2);
                q.args[2] = 1;
                const bool may = permitted(f, q.args[1]);
                const bool must = may && pending_on(f, 0) == 0;
                c.note(pbt::cat("actor ", a, " tries to lock file ", f, q.args[1] == 1 ? "" : " shared", may ? "" : " (in vain)"));
                if (!may) contended = true;
                const auto r = cast.ask(a, q, "try", 5);
                if (r.op < 0) pbt::fail("threw", "a try operation threw: " + r.get());
                if (r.op && !may) pbt::fail("exclusion", pbt::cat("try-lock succeeded on file ", f, ", which is held"));
                if (!r.op && must) pbt::fail("refused", pbt::cat("try-lock failed on file ", f, ", which is not held so as to prevent it"));
                if (r.op) {
                    l.mode = q.args[1];
                    if (l.mode == 2 && holders(f, 2) > 1) shared = true;
                }
                return;
            }
            default:
                q.op = op_destroy;
                c.note(pbt::cat("actor ", a, " destroys unlocked lock ", slot));
                l = {};
                const auto r = cast.ask(a, q, "destroy");
                if (r.op < 0) pbt::fail("threw", "destruction threw: " + r.get());
        }
    });
    // everything is released, and everybody who waits gets their turn
    for (;;) {
        settle(0);
        std::vector<std::pair<int, int>> held;
        for (int a = 0; a < n; ++a)
            if (!waiting.count(a))
                for (int s = 0; s < slots; ++s)
                    if (objects[static_cast<std::size_t>(a)][static_cast<std::size_t>(s)].mode) held.push_back({a, s});
        if (held.empty()) {
            if (waiting.empty()) break;
            continue; // settle() insists on progress
        }
        const auto [a, s] = held[c.draw(held.size() - 1)];
        release(a, s, c.chance(30));
    }
    cast.stop();
    check_files();
    if (contended) c.label("contended");
    if (shared) c.label("shared");
    if (contended) c.nontrivial();
    if (processes > 1) c.label("processes");
}

void run_stress(pbt::test_case& c)
{
    const int files = c.irange(1, 2);
    const int processes = c.irange(1, 3);
    const int threads = c.irange(1, 4);
    make_files(c, files);
    if (!counters) counters = static_cast<shared_counters*>(mmap(nullptr, sizeof(shared_counters), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    new (counters) shared_counters();
    const int rounds = c.sized(20, 120);
    c.note(pbt::cat("stress with ", processes, " processes of ", threads, " threads, ", files, " files, ", rounds, " rounds"));
    actors::cast cast(processes, threads, make_handler);
    for (int a = 0; a < cast.count(); ++a) {
        actors::message q;
        q.op = op_stress;
        q.args[0] = static_cast<int>(c.draw(1000000));
        q.args[1] = rounds;
        q.args[2] = files;
        cast.tell(a, q);
    }
    std::vector<int> who;
    for (int a = 0; a < cast.count(); ++a) who.push_back(a);
    int got = 0;
    while (!who.empty()) {
        actors::message m;
        const int a = cast.await(who, 30, m);
        if (a < 0) pbt::fail("not-granted", "lock operations do not return");
        if (m.op < 0) pbt::fail("threw", "a lock operation threw: " + m.get());
        got += m.op;
        who.erase(std::find(who.begin(), who.end(), a));
    }
    cast.stop();
    PBT_REQUIRE("exclusion", counters->errors == 0, counters->errors.load(), " overlaps of exclusive sections with others");
    check_files();
    c.label("stress");
    if (got > 0 && cast.count() > 1) c.nontrivial();
}

void run(pbt::test_case& c)
{
    if (c.chance(25)) run_stress(c);
    else run_history(c);
}

} // namespace

int main(int argc, char** argv)
{
    pbt::spec s;
    s.id = "C29";
    s.rule = "Cases are (a) histories of creating, locking, trying, unlocking, moving and destroying file locks on one or two files, known by several paths, in 1-3 threads of each of 1-3 processes, some of which are killed, with every reply compared with a model of the lock state, and (b) threads and processes that lock at random as fast as they can and check that they are alone. Non-trivial: some lock was contended for.";
    s.quick_cases = 6000;
    s.thorough_cases = 120000;
    s.run = run;
    s.sound_tags = {"exclusion", "asan:"};
    s.attempts = 10;
    s.hang_seconds = 100;
    return pbt::main(argc, argv, s);
}
