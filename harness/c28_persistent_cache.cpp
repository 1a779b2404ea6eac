// C28: the persistent file cache is safe under concurrent use and cleanup.
#include "actors.hpp"
#include "fstree.hpp"
#include "keys.hpp"

#include <cosim/file_cache.hpp>

#include <atomic>
#include <memory>
#include <mutex>
#include <sys/mman.h>

using namespace fstree;

namespace
{

enum op
{
    op_rw, // key
    op_ro, // key
    op_release, // key
    op_cleanup,
    op_renew, // another cache object
    op_write, // key, serial
    op_stress, // seed, rounds
};

fs::path root;
std::vector<std::string> keys;
bool sharedCache = false;

constexpr int max_keys = 6;
struct shared_counters
{
    std::atomic<int> writers[max_keys];
    std::atomic<int> readers[max_keys];
    std::atomic<int> errors;
    char what[200];
};
shared_counters* counters = nullptr;

struct rng_lite
{
    std::uint64_t s;
    int operator()(int n) { return static_cast<int>((pbt::rng(s += 0x9e37).next() >> 20) % static_cast<unsigned>(n)); }
};

struct held_dir
{
    std::unique_ptr<cosim::file_cache::directory_rw> rw;
    std::unique_ptr<cosim::file_cache::directory_ro> ro;
};

void complain(const std::string& s)
{
    if (counters->errors.fetch_add(1) == 0) std::snprintf(counters->what, sizeof counters->what, "%s", s.c_str());
}

bool consistent(const fs::path& dir, bool mayBeEmpty)
{
    const bool a = fs::exists(dir / "a"), b = fs::exists(dir / "b");
    if (!a && !b) return mayBeEmpty;
    return a && b && slurp(dir / "a") == slurp(dir / "b");
}

/// Random use of the cache as fast as it goes.
void stress(int who, int seed, int rounds, int nkeys, cosim::persistent_file_cache& cache)
{
    rng_lite r{static_cast<std::uint64_t>(seed) * 7919};
    for (int i = 0; i < rounds; ++i) {
        std::vector<std::pair<int, held_dir>> held;
        for (int k = 0; k < nkeys; ++k) { // always in this order
            if (r(2)) {
                held_dir h;
                const auto& key = keys[static_cast<std::size_t>(k)];
                if (r(5) < 2) {
                    h.rw = cache.get_directory_rw(key);
                    if (counters->writers[k].fetch_add(1) != 0 || counters->readers[k].load() != 0) complain("read-write access is not exclusive");
                    const auto p = h.rw->path();
                    if (!fs::is_directory(p)) complain("a read-write directory does not exist");
                    else if (!consistent(p, true)) complain("a read-write directory has half of its contents");
                    else if (r(3)) {
                        const auto t = std::to_string(who * 100000 + i);
                        std::ofstream(p / "a") << t;
                        if (r(2)) std::this_thread::yield();
                        std::ofstream(p / "b") << t;
                    }
                    held.push_back({k, std::move(h)});
                } else {
                    try {
                        h.ro = cache.get_directory_ro(key);
                    } catch (const std::logic_error&) {
                        continue;
                    }
                    counters->readers[k].fetch_add(1);
                    if (counters->writers[k].load() != 0) complain("read-only access besides read-write access");
                    const auto p = h.ro->path();
                    if (!fs::is_directory(p)) complain("a read-only directory does not exist");
                    else if (!consistent(p, true)) complain("a read-only directory is half written");
                    held.push_back({k, std::move(h)});
                }
            }
        }
        if (r(6) == 0) cache.cleanup();
        for (auto& [k, h] : held) {
            const auto p = h.rw ? h.rw->path() : h.ro->path();
            if (!fs::is_directory(p)) complain("a directory in use was removed");
            else if (!consistent(p, true)) complain("a directory in use was changed");
            if (h.rw) counters->writers[k].fetch_sub(1);
            else counters->readers[k].fetch_sub(1);
            h = {};
        }
        if (r(8) == 0) cache.cleanup();
    }
}

std::unique_ptr<cosim::persistent_file_cache> processCache;
std::once_flag processCacheFlag;

actors::handler make_handler(int process, int thread)
{
    struct state
    {
        std::unique_ptr<cosim::persistent_file_cache> own;
        std::map<int, held_dir> dirs;
    };
    auto st = std::make_shared<state>();
    return [st, process, thread](const actors::message& in, actors::message& out) {
        cosim::persistent_file_cache* cache = nullptr;
        if (sharedCache) {
            std::call_once(processCacheFlag, [] { processCache = std::make_unique<cosim::persistent_file_cache>(root); });
            cache = processCache.get();
        } else {
            if (!st->own || in.op == op_renew) st->own = std::make_unique<cosim::persistent_file_cache>(root);
            cache = st->own.get();
        }
        const int k = in.args[0];
        out.op = 1;
        switch (in.op) {
            case op_rw:
                st->dirs[k].rw = cache->get_directory_rw(keys[static_cast<std::size_t>(k)]);
                out.set(st->dirs[k].rw->path().string());
                break;
            case op_ro:
                try {
                    st->dirs[k].ro = cache->get_directory_ro(keys[static_cast<std::size_t>(k)]);
                    out.set(st->dirs[k].ro->path().string());
                } catch (const std::logic_error& e) {
                    out.op = 0;
                    out.set(e.what());
                }
                break;
            case op_release: st->dirs.erase(k); break;
            case op_cleanup: cache->cleanup(); break;
            case op_renew: break;
            case op_write: {
                const auto p = st->dirs[k].rw->path();
                fs::create_directories(p / "d");
                std::ofstream(p / "d" / ("f" + std::to_string(in.args[1] % 3))) << "serial " << in.args[1];
                break;
            }
            case op_stress:
                stress(process * 10 + thread, in.args[0], in.args[1], in.args[2], *cache);
                break;
        }
    };
}

struct key_state
{
    bool exists = false;
    bool uncertain = false; // some of the directory may have been removed
    fs::path path; // as of the latest grant
    tree contents;
};

void choose_keys(pbt::test_case& c, int n)
{
    keys.clear();
    while (static_cast<int>(keys.size()) < n) {
        auto k = gen_key(c);
        if (std::find(keys.begin(), keys.end(), k) != keys.end()) k += std::to_string(keys.size());
        if (std::find(keys.begin(), keys.end(), k) == keys.end()) keys.push_back(k);
    }
}

void run_history(pbt::test_case& c)
{
    choose_keys(c, c.irange(1, 4));
    const int nkeys = static_cast<int>(keys.size());
    const auto world = fresh("world");
    root = world / "cache";
    if (c.chance(30)) fs::create_directories(root);
    spit(world / "sentinel", "x");
    sharedCache = c.chance(40);
    std::vector<key_state> state(static_cast<std::size_t>(nkeys));
    std::map<std::string, fs::path> everUsed; // key -> path
    int serial = 0;
    bool contended = false, cleaned = false, persisted = false;
    const int generations = c.irange(1, 2);
    for (int g = 0; g < generations; ++g) {
        const int processes = c.irange(1, 3);
        const int threads = c.irange(1, 2);
        c.note(pbt::cat("generation ", g, ": ", processes, " processes of ", threads, " threads"));
        for (auto& k : keys) c.note("  key " + pbt::quote(k));
        actors::cast cast(processes, threads, make_handler);
        const int n = cast.count();
        std::vector<std::map<int, int>> held(static_cast<std::size_t>(n)); // actor -> key -> mode
        std::map<int, std::pair<int, int>> waiting; // actor -> (key, mode)
        int killed = 0;

        auto holders = [&](int k, int mode) {
            int r = 0;
            for (auto& h : held) r += h.count(k) && h[k] == mode;
            return r;
        };
        auto permitted = [&](int k, int mode) { return holders(k, 1) == 0 && (mode == 2 || holders(k, 2) == 0); };
        auto pending_on = [&](int k, int mode) {
            int r = 0;
            for (auto& [a, w] : waiting) r += w.first == k && (mode == 0 || w.second == mode);
            return r;
        };
        auto check_contents = [&](int k) {
            auto& s = state[static_cast<std::size_t>(k)];
            PBT_REQUIRE("lost", fs::is_directory(s.path), "the directory of key ", pbt::quote(keys[static_cast<std::size_t>(k)]), " does not exist");
            const auto d = diff(s.contents, snapshot(s.path));
            PBT_REQUIRE("contents", d.empty(), "key ", pbt::quote(keys[static_cast<std::size_t>(k)]), ": ", d);
        };
        auto granted = [&](int a, const actors::message& m) {
            const auto [k, mode] = waiting.at(a);
            waiting.erase(a);
            auto& s = state[static_cast<std::size_t>(k)];
            const auto& key = keys[static_cast<std::size_t>(k)];
            if (m.op < 0) pbt::fail("threw", pbt::cat("a request for ", pbt::quote(key), " threw: ", m.get()));
            if (m.op == 0) {
                if (s.uncertain) s.exists = s.uncertain = false;
                if (s.exists) pbt::fail("refused", pbt::cat("read-only access to ", pbt::quote(key), " was refused: ", m.get()));
                c.note(pbt::cat("  actor ", a, " was refused key ", k));
                return;
            }
            if (mode == 2 && !s.exists) pbt::fail("granted", pbt::cat("read-only access to ", pbt::quote(key), ", which is not in the cache, was granted"));
            if (!permitted(k, mode)) pbt::fail("exclusion", pbt::cat(mode == 1 ? "read-write" : "read-only", " access to ", pbt::quote(key), " was granted while it was in use"));
            c.note(pbt::cat("  actor ", a, " has key ", k));
            held[static_cast<std::size_t>(a)][k] = mode;
            if (s.exists && !s.contents.empty()) persisted = true;
            s.exists = true;
            s.path = m.get();
            if (s.uncertain) {
                // What is left of it is left of it.
                auto left = snapshot(s.path);
                for (auto& [name, what] : left) {
                    const auto it = s.contents.find(name);
                    PBT_REQUIRE("contents", it != s.contents.end() && it->second == what, "key ", pbt::quote(key), " has got ", name, " ", what);
                }
                s.contents = left;
                s.uncertain = false;
            }
            PBT_REQUIRE("inside", s.path.string().rfind(root.string() + "/", 0) == 0, s.path.string(), " is outside of the cache ", root.string());
            check_contents(k);
            everUsed[key] = s.path;
            for (auto& [k2, p2] : everUsed)
                if (k2 != key && fs::exists(p2)) PBT_REQUIRE("distinct", !fs::equivalent(p2, s.path), "keys ", pbt::quote(key), " and ", pbt::quote(k2), " share ", p2.string());
        };
        auto settle = [&](double patience) {
            for (;;) {
                bool mustGrant = false;
                for (int k = 0; k < nkeys; ++k) {
                    const bool free = holders(k, 1) + holders(k, 2) == 0;
                    if (pending_on(k, 0) > 0 && (free || (holders(k, 1) == 0 && pending_on(k, 1) == 0))) mustGrant = true;
                }
                if (waiting.empty()) return;
                std::vector<int> who;
                for (auto& [a, w] : waiting) who.push_back(a);
                actors::message m;
                const int a = cast.await(who, mustGrant ? 15 : patience, m);
                if (a < 0) {
                    if (mustGrant) pbt::fail("not-granted", "a request which nobody's handle prevents any more is not granted");
                    return;
                }
                granted(a, m);
            }
        };
        auto release = [&](int a, int k) {
            c.note(pbt::cat("actor ", a, " releases key ", k));
            check_contents(k);
            held[static_cast<std::size_t>(a)].erase(k);
            actors::message q;
            q.op = op_release;
            q.args[0] = k;
            cast.ask(a, q, "release");
            settle(0);
        };
        c.repeat(1, c.sized(8, 40), c.sized(5, 20), [&](int) {
            std::vector<int> idle;
            for (int a = 0; a < n; ++a)
                if (!waiting.count(a) && cast.alive(a)) idle.push_back(a);
            if (idle.empty()) return;
            const int a = c.pick(idle);
            auto& mine = held[static_cast<std::size_t>(a)];
            actors::message q;
            if (killed + 1 < processes && c.chance(4)) {
                // A process dies, whatever its threads are doing, e.g. cleaning up.
                const int p = cast.process(a);
                const bool cleaning = c.chance(60);
                const int us = cleaning ? c.irange(0, 600) : 0;
                c.note(pbt::cat("process ", p, " is killed", cleaning ? pbt::cat(" ", us, " us after starting to clean up") : ""));
                c.label(cleaning ? "killed while cleaning up" : "killed");
                if (cleaning) {
                    q.op = op_cleanup;
                    cast.tell(a, q);
                    if (us > 0) usleep(static_cast<useconds_t>(us));
                }
                cast.kill_process(p);
                if (cleaning) {
                    for (int k = 0; k < nkeys; ++k) {
                        if (holders(k, 1) + holders(k, 2) == 0) state[static_cast<std::size_t>(k)].uncertain = state[static_cast<std::size_t>(k)].exists;
                    }
                }
                for (int b = 0; b < n; ++b)
                    if (cast.process(b) == p) {
                        held[static_cast<std::size_t>(b)].clear();
                        waiting.erase(b);
                    }
                ++killed;
                settle(0);
                return;
            }
            switch (c.weighted({8, 5, 3, 2, 1})) {
                case 0: {
                    const int k = c.irange(0, nkeys - 1);
                    const int mode = c.irange(1, 2);
                    for (auto& [k2, m2] : mine)
                        if (k2 >= k) return; // no two handles in one thread, and nobody can deadlock
                    q.op = mode == 1 ? op_rw : op_ro;
                    q.args[0] = k;
                    c.note(pbt::cat("actor ", a, mode == 1 ? " wants to write key " : " wants to read key ", k));
                    const bool free = permitted(k, mode) && pending_on(k, 0) == 0;
                    if (!free) contended = true;
                    waiting[a] = {k, mode};
                    cast.tell(a, q);
                    if (free) {
                        // nothing prevents it
                        actors::message m;
                        if (cast.await({a}, 15, m) < 0) pbt::fail("not-granted", pbt::cat("a request for ", pbt::quote(keys[static_cast<std::size_t>(k)]), ", which nobody uses, is not granted"));
                        granted(a, m);
                    } else settle(c.chance(50) ? 0.002 : 0);
                    return;
                }
                case 1: {
                    if (mine.empty()) return;
                    auto it = mine.begin();
                    std::advance(it, c.draw(mine.size() - 1));
                    release(a, it->first);
                    return;
                }
                case 2: {
                    std::vector<int> w;
                    for (auto& [k, m] : mine)
                        if (m == 1) w.push_back(k);
                    if (w.empty()) return;
                    const int k = c.pick(w);
                    q.op = op_write;
                    q.args[0] = k;
                    q.args[1] = ++serial;
                    const auto r = cast.ask(a, q, "write");
                    if (r.op < 0) pbt::fail("threw", "writing failed: " + r.get());
                    auto& t = state[static_cast<std::size_t>(k)].contents;
                    t["d"] = "<dir>";
                    t[pbt::cat("d/f", serial % 3)] = pbt::cat("=serial ", serial);
                    return;
                }
                case 3: {
                    c.note(pbt::cat("actor ", a, " cleans up"));
                    q.op = op_cleanup;
                    const auto r = cast.ask(a, q, "cleanup", 15);
                    if (r.op < 0) pbt::fail("threw", "cleaning up threw: " + r.get());
                    cleaned = true;
                    for (int k = 0; k < nkeys; ++k) {
                        auto& s = state[static_cast<std::size_t>(k)];
                        if (!s.exists) continue;
                        if (holders(k, 1) + holders(k, 2) > 0) check_contents(k);
                        else {
                            PBT_REQUIRE("not-cleaned", !fs::exists(s.path), "the directory of key ", pbt::quote(keys[static_cast<std::size_t>(k)]), " is still there after cleaning up");
                            s.exists = s.uncertain = false;
                            s.contents.clear();
                        }
                    }
                    return;
                }
                default:
                    q.op = op_renew;
                    cast.ask(a, q, "construction");
            }
        });
        for (;;) {
            settle(0);
            std::vector<std::pair<int, int>> h;
            for (int a = 0; a < n; ++a)
                if (!waiting.count(a))
                    for (auto& [k, m] : held[static_cast<std::size_t>(a)]) h.push_back({a, k});
            if (h.empty()) {
                if (waiting.empty()) break;
                continue;
            }
            const auto [a, k] = h[c.draw(h.size() - 1)];
            release(a, k);
        }
        cast.stop();
        PBT_REQUIRE("outside", slurp(world / "sentinel") == "x" && std::distance(fs::directory_iterator(world), fs::directory_iterator()) == 1 + fs::exists(root), "something outside of the cache was changed");
    }
    if (contended) c.label("contended");
    if (cleaned) c.label("cleaned");
    if (persisted) c.label("persisted");
    if (contended || (cleaned && persisted)) c.nontrivial();
}

void run_stress(pbt::test_case& c)
{
    const int nkeys = c.irange(1, 3);
    choose_keys(c, nkeys);
    const auto world = fresh("world");
    root = world / "cache";
    sharedCache = c.chance(50);
    const int processes = c.irange(1, 3);
    const int threads = c.irange(1, 3);
    if (!counters) counters = static_cast<shared_counters*>(mmap(nullptr, sizeof(shared_counters), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    new (counters) shared_counters();
    const int rounds = c.sized(5, 25);
    c.note(pbt::cat("stress with ", processes, " processes of ", threads, " threads, ", nkeys, " keys, ", rounds, " rounds"));
    actors::cast cast(processes, threads, make_handler);
    std::vector<int> who;
    for (int a = 0; a < cast.count(); ++a) {
        actors::message q;
        q.op = op_stress;
        q.args[0] = static_cast<int>(c.draw(1000000));
        q.args[1] = rounds;
        q.args[2] = nkeys;
        cast.tell(a, q);
        who.push_back(a);
    }
    while (!who.empty()) {
        actors::message m;
        const int a = cast.await(who, 40, m);
        if (a < 0) pbt::fail("not-granted", "cache operations do not return");
        if (m.op < 0) pbt::fail("threw", "a cache operation threw: " + m.get());
        who.erase(std::find(who.begin(), who.end(), a));
    }
    cast.stop();
    PBT_REQUIRE("exclusion", counters->errors == 0, counters->errors.load(), " errors, first: ", counters->what);
    c.label("stress");
    if (processes * threads > 1) c.nontrivial();
}

void run(pbt::test_case& c)
{
    if (c.chance(25)) run_stress(c);
    else run_history(c);
}

} // namespace

int main(int argc, char** argv)
{
    pbt::spec s;
    s.id = "C28";
    s.rule = "Cases are (a) histories of read-write and read-only requests, writes, releases and cleanups on one cache root from 1-2 threads of each of 1-3 processes, over one or two generations of processes, some of which are killed (e.g. while cleaning up), with every grant, refusal and directory compared with a model, and (b) threads and processes using the cache at random as fast as they can and checking that nobody interferes. Non-trivial: a key was contended for, or contents persisted and a cleanup took place.";
    s.quick_cases = 4000;
    s.thorough_cases = 80000;
    s.run = run;
    s.sound_tags = {"exclusion", "asan:"};
    s.attempts = 10;
    s.hang_seconds = 120;
    return pbt::main(argc, argv, s);
}
