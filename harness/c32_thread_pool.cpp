// C32: the thread pool runs every task exactly once and waiting covers all of them.
#include "pbt.hpp"

#include <vector>

#include <cosim/utility/thread_pool.hpp>

#include <atomic>
#include <chrono>
#include <memory>
#include <mutex>
#include <system_error>

#include <sys/resource.h>

namespace
{

/// A pool which the system denies some or all of its threads.
void starve(pbt::test_case& c)
{
    const unsigned n = static_cast<unsigned>(c.irange(1, 6));
    const rlim_t spare = static_cast<rlim_t>(c.irange(0, 4));
    c.note(pbt::cat(n, " worker threads wanted, few or none available (", spare, ")"));
    c.label("starved");
    struct rlimit old;
    if (getrlimit(RLIMIT_NPROC, &old) != 0) pbt::fail("harness", "getrlimit");
    struct rlimit low = old;
    low.rlim_cur = 1 + spare; // this process, perhaps with helper threads of its own
    if (low.rlim_cur > old.rlim_cur) return;
    if (setrlimit(RLIMIT_NPROC, &low) != 0) pbt::fail("harness", "setrlimit");
    bool refused = false;
    std::string error;
    try {
        cosim::utility::thread_pool pool(n);
        std::atomic<int> runs{0};
        for (int i = 0; i < 5; ++i) pool.submit([&] { ++runs; });
        pool.wait_for_tasks_to_finish();
        if (runs != 5) error = pbt::cat(runs.load(), " of 5 tasks have been run");
    } catch (const std::system_error&) {
        refused = true;
    }
    setrlimit(RLIMIT_NPROC, &old);
    if (refused) c.label("threads refused");
    if (!error.empty()) pbt::fail("not-run", error);
}

struct task_record
{
    int value = 0; // deliberately not atomic: waiting must make it visible
    std::atomic<int> runs{0};
};

struct board
{
    explicit board(int n)
        : tasks(static_cast<std::size_t>(n))
    { }
    std::vector<task_record> tasks;
    std::atomic<int> next{0};
    int claim() { return next.fetch_add(1); }
};

constexpr int capacity = 2000;

void pause(int kind)
{
    switch (kind) {
        case 1: std::this_thread::yield(); break;
        case 2: std::this_thread::sleep_for(std::chrono::microseconds(50)); break;
        case 3: std::this_thread::sleep_for(std::chrono::microseconds(500)); break;
        default:;
    }
}

/// Submits a task, which may submit others.
void submit(cosim::utility::thread_pool& pool, board& b, int kind, int nested, std::vector<int>* mine)
{
    const int id = b.claim();
    if (id >= capacity) pbt::fail("harness", "too many tasks");
    if (mine) mine->push_back(id);
    pool.submit([&pool, &b, id, kind, nested] {
        pause(kind);
        auto& t = b.tasks[static_cast<std::size_t>(id)];
        ++t.runs;
        t.value += id + 1;
        for (int i = 0; i < nested; ++i) submit(pool, b, kind, nested > 2 ? nested - 2 : 0, nullptr);
    });
}

void check(const board& b, int id, const char* when)
{
    auto& t = b.tasks[static_cast<std::size_t>(id)];
    const int runs = t.runs.load();
    if (runs != 1) pbt::fail(runs == 0 ? "not-run" : "run-twice", pbt::cat("task ", id, " has been run ", runs, " times ", when));
    PBT_REQUIRE("value", t.value == id + 1, "task ", id, " has left ", t.value, " ", when);
}

void run(pbt::test_case& c)
{
    if (c.chance(4)) starve(c);
    const unsigned n = static_cast<unsigned>(c.irange(0, 6));
    c.note(pbt::cat(n, " worker threads"));
    board b(capacity);
    auto pool = std::make_unique<cosim::utility::thread_pool>(n);
    PBT_REQUIRE("workers", pool->numWorkerThreads() == n, pool->numWorkerThreads());
    bool waited = false, left = false, others = false;
    c.repeat(1, c.sized(6, 30), c.sized(4, 12), [&](int) {
        switch (c.weighted({8, 5, 3, 2})) {
            case 0: {
                const int k = c.irange(1, c.sized(2, 12));
                const int kind = c.weighted({5, 2, 2, 1});
                const int nested = c.chance(25) ? c.irange(1, 3) : 0;
                if (b.next.load() + k * 16 > capacity) return;
                c.note(pbt::cat("submit ", k, " tasks", nested ? ", nested" : ""));
                if (nested) c.label("nested");
                for (int i = 0; i < k; ++i) submit(*pool, b, kind, nested, nullptr);
                break;
            }
            case 1: {
                c.note("wait");
                pool->wait_for_tasks_to_finish();
                waited = waited || b.next.load() > 0;
                for (int i = 0; i < b.next.load(); ++i) check(b, i, "after waiting");
                break;
            }
            case 2: { // several threads submit and wait
                if (n == 0) return; // runs tasks in the calling thread; not for concurrent use
                const int k = c.irange(2, 4);
                const int each = c.irange(0, 6);
                const int kind = c.weighted({5, 2, 2, 1});
                if (b.next.load() + k * each > capacity) return;
                c.note(pbt::cat(k, " threads submit ", each, " tasks each, and wait"));
                std::vector<std::thread> ts;
                std::mutex m;
                std::string error, tag;
                for (int i = 0; i < k; ++i)
                    ts.emplace_back([&] {
                        try {
                            std::vector<int> mine;
                            for (int j = 0; j < each; ++j) submit(*pool, b, kind, 0, &mine);
                            pool->wait_for_tasks_to_finish();
                            for (auto id : mine) check(b, id, "after waiting");
                        } catch (const pbt::failure& f) {
                            std::lock_guard<std::mutex> l(m);
                            tag = f.tag;
                            error = f.message;
                        }
                    });
                for (auto& t : ts) t.join();
                if (!error.empty()) pbt::fail(tag, error);
                others = true;
                break;
            }
            default: { // as many tasks as there are workers can run at once
                if (n < 2) return;
                pool->wait_for_tasks_to_finish();
                const int k = c.irange(2, static_cast<int>(n));
                c.note(pbt::cat(k, " tasks meet"));
                c.label("meeting");
                auto arrived = std::make_shared<std::atomic<int>>(0);
                for (int i = 0; i < k; ++i)
                    pool->submit([arrived, k] {
                        ++*arrived;
                        while (arrived->load() < k) std::this_thread::yield();
                    });
                if (c.chance(70)) {
                    pool->wait_for_tasks_to_finish();
                    PBT_REQUIRE("not-run", arrived->load() == k, arrived->load(), " of ", k);
                }
            }
        }
    });
    if (c.chance(60)) {
        pool->wait_for_tasks_to_finish();
        for (int i = 0; i < b.next.load(); ++i) check(b, i, "after waiting");
    } else left = true;
    pool.reset();
    for (int i = 0; i < b.next.load(); ++i) check(b, i, "after the pool was destroyed");
    if (left) c.label("destroyed without waiting");
    if (others) c.label("several users");
    if (n == 0) c.label("no workers");
    if (b.next.load() > 1 && (waited || left || others)) c.nontrivial();
}

} // namespace

int main(int argc, char** argv)
{
    pbt::spec s;
    s.id = "C32";
    s.rule = "Cases are histories of submitting tasks (of several durations, also nested and from several threads), waiting (also several threads at once) and destroying a pool of 0-6 workers, with the runs and effects of every task counted, under ThreadSanitizer. Non-trivial: several tasks, and a wait or a destruction with work left.";
    s.quick_cases = 40000;
    s.thorough_cases = 300000;
    s.run = run;
    s.attempts = 10;
    s.hang_seconds = 30;
    s.sound_tags = {"tsan:", "not-run", "run-twice", "value"};
    return pbt::main(argc, argv, s);
}
