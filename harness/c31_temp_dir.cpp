// C31: temporary directories are unique, owned, and removed exactly once.
#include "fstree.hpp"

#include <cosim/utility/filesystem.hpp>
#include <cosim/utility/uuid.hpp>

#include <memory>
#include <regex>
#include <sys/wait.h>
#include <thread>

using namespace fstree;
using cosim::utility::temp_dir;

namespace
{

std::unordered_set<std::string> seenUuids; // in this process

void check_uuid(const std::string& u)
{
    static const std::regex form("[0-9a-f]{8}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{12}");
    PBT_REQUIRE("uuid-form", std::regex_match(u, form), pbt::quote(u));
    PBT_REQUIRE("uuid-repeated", seenUuids.insert(u).second, u);
}

void run_uuids(pbt::test_case& c)
{
    const int children = c.irange(0, 2);
    const int threads = c.irange(0, 3);
    const int n = c.irange(1, 20);
    const int before = c.irange(0, 3);
    c.note(pbt::cat(before, " UUIDs, then ", n, " UUIDs in each of ", threads, " threads and ", children, " child processes"));
    std::vector<std::string> all;
    for (int i = 0; i < before; ++i) all.push_back(cosim::utility::random_uuid());
    // processes which begin in the same state
    std::vector<std::pair<pid_t, int>> kids;
    for (int i = 0; i < children; ++i) {
        int p[2];
        if (pipe(p) != 0) pbt::fail("harness", "pipe");
        const pid_t pid = fork();
        if (pid == 0) {
            std::string out;
            for (int k = 0; k < n; ++k) out += cosim::utility::random_uuid() + "\n";
            if (write(p[1], out.data(), out.size()) < 0) _exit(1);
            _exit(0);
        }
        close(p[1]);
        kids.push_back({pid, p[0]});
    }
    std::vector<std::vector<std::string>> perThread(static_cast<std::size_t>(threads));
    std::vector<std::thread> ts;
    for (auto& v : perThread)
        ts.emplace_back([&v, n] {
            for (int k = 0; k < n; ++k) v.push_back(cosim::utility::random_uuid());
        });
    for (auto& t : ts) t.join();
    for (auto& v : perThread) all.insert(all.end(), v.begin(), v.end());
    for (int k = 0; k < n; ++k) all.push_back(cosim::utility::random_uuid());
    for (auto [pid, fd] : kids) {
        std::string text;
        char b[4096];
        for (ssize_t r; (r = read(fd, b, sizeof b)) > 0;) text.append(b, static_cast<std::size_t>(r));
        close(fd);
        int st;
        waitpid(pid, &st, 0);
        PBT_REQUIRE("harness", st == 0, "child status ", st);
        std::istringstream is(text);
        for (std::string l; std::getline(is, l);) all.push_back(l);
    }
    PBT_REQUIRE("harness", all.size() == static_cast<std::size_t>(before + n * (1 + threads + children)), all.size());
    for (auto& u : all) check_uuid(u);
    c.label("uuids");
    if (all.size() > 1) c.nontrivial();
}

struct slot
{
    std::unique_ptr<temp_dir> dir;
    fs::path path; // empty if it owns nothing
    tree contents;
};

void run_dirs(pbt::test_case& c)
{
    const auto world = fresh("world");
    const auto tmp = world / "tmp";
    const auto away = world / "away";
    fs::create_directories(tmp / "existing");
    fs::create_directories(away);
    spit(world / "sentinel", "x");
    spit(away / "file", "far away");
    fs::create_directories(away / "dir");
    setenv("TMPDIR", tmp.c_str(), 1);
    const auto original = snapshot(world);
    std::set<std::string> parents; // which may be there since some directory was made in them
    std::vector<slot> slots(4);
    std::set<std::string> everUsed;
    int counter = 0;
    bool moved = false;

    auto check_all = [&] {
        auto want = original;
        for (auto& p : parents) want[p] = "<dir>";
        for (auto& s : slots) {
            if (!s.dir) continue;
            PBT_REQUIRE("path", s.dir->path() == s.path, s.dir->path().string(), " instead of ", s.path.string());
            if (s.path.empty()) continue;
            const auto rel = s.path.lexically_relative(world).string();
            want[rel] = "<dir>";
            for (auto& [k, v] : s.contents) want[rel + "/" + k] = v;
        }
        const auto d = diff(want, snapshot(world));
        PBT_REQUIRE("contents", d.empty(), d);
    };
    auto expect_gone = [&](const fs::path& p) {
        if (!p.empty()) PBT_REQUIRE("left-behind", !fs::exists(fs::symlink_status(p)), p.string(), " is still there");
    };

    c.repeat(1, c.sized(8, 40), c.sized(5, 15), [&](int) {
        const auto i = c.draw(slots.size() - 1);
        auto& s = slots[i];
        switch (c.weighted({6, 5, 3, 2, 3})) {
            case 0: { // create
                if (s.dir) return;
                const int kind = c.irange(0, 5);
                fs::path parent;
                fs::path base = tmp;
                switch (kind) {
                    case 0: break;
                    case 1: parent = "existing"; base = tmp / parent; break;
                    case 2: parent = c.one_of<std::string>({"new", "new/deep", "x.y", "with space"}); base = tmp / parent; break;
                    case 3: parent = base = away; break;
                    case 4: parent = base = away / "made" / c.one_of<std::string>({"a", "b"}); break;
                    default: parent = base = away / "dir"; break;
                }
                c.note(pbt::cat("create ", i, " in ", pbt::quote(parent.string())));
                s.dir = kind == 0 && c.chance(50) ? std::make_unique<temp_dir>() : std::make_unique<temp_dir>(parent);
                s.path = s.dir->path();
                s.contents.clear();
                for (auto p = base; p != world; p = p.parent_path()) parents.insert(p.lexically_relative(world).string());
                PBT_REQUIRE("created", fs::is_directory(s.path) && fs::is_empty(s.path), s.path.string());
                PBT_REQUIRE("parent", s.path.parent_path() == base, s.path.string(), " is not directly in ", base.string());
                PBT_REQUIRE("repeated", everUsed.insert(s.path.string()).second, s.path.string());
                break;
            }
            case 1: { // populate
                if (!s.dir || s.path.empty()) return;
                switch (c.weighted({5, 2, 2, 1})) {
                    case 0: {
                        const auto name = c.one_of<std::string>({"f", "d/f", "d/e/f", ".h"});
                        for (auto d = fs::path(name).parent_path(); !d.empty(); d = d.parent_path()) s.contents[d.string()] = "<dir>";
                        fs::create_directories((s.path / name).parent_path());
                        const auto t = pbt::cat("text ", ++counter);
                        spit(s.path / name, t);
                        s.contents[name] = "=" + t;
                        break;
                    }
                    case 1: { // links lead elsewhere, and must not be followed
                        if (s.contents.count("link")) return;
                        const auto target = c.one_of<fs::path>({away, away / "file", world, "/nonexistent"});
                        fs::create_symlink(target, s.path / "link");
                        s.contents["link"] = "<link>" + target.string();
                        c.label("links");
                        break;
                    }
                    case 2:
                        if (s.contents.count("hard")) return;
                        fs::create_hard_link(away / "file", s.path / "hard");
                        s.contents["hard"] = "=far away";
                        break;
                    default: // somebody removes it already
                        c.note(pbt::cat("removed by others: ", i));
                        wipe(s.path);
                        fs::remove(s.path);
                        s.contents.clear();
                        if (c.chance(50)) {
                            s.dir.reset();
                            s.path.clear();
                        } else {
                            fs::create_directory(s.path);
                        }
                }
                break;
            }
            case 2: { // move construct
                if (!s.dir) return;
                const auto j = c.draw(slots.size() - 1);
                if (slots[j].dir) return;
                c.note(pbt::cat("move ", i, " to new ", j));
                slots[j].dir = std::make_unique<temp_dir>(std::move(*s.dir));
                slots[j].path = s.path;
                slots[j].contents = s.contents;
                s.path.clear();
                s.contents.clear();
                moved = true;
                break;
            }
            case 3: { // move assign
                const auto j = c.draw(slots.size() - 1);
                if (i == j || !s.dir || !slots[j].dir) return;
                c.note(pbt::cat("move ", i, " to existing ", j));
                const auto old = slots[j].path;
                *slots[j].dir = std::move(*s.dir);
                slots[j].path = s.path;
                slots[j].contents = s.contents;
                s.path.clear();
                s.contents.clear();
                expect_gone(old);
                moved = true;
                break;
            }
            default: {
                if (!s.dir) return;
                c.note(pbt::cat("destroy ", i));
                const auto old = s.path;
                s.dir.reset();
                s.path.clear();
                s.contents.clear();
                expect_gone(old);
            }
        }
        check_all();
    });
    for (auto& s : slots) {
        s.dir.reset();
        s.path.clear();
    }
    check_all();
    if (moved) c.label("moved");
    if (!everUsed.empty()) c.nontrivial();
}

/// So many at a time that short names would collide.
void run_many(pbt::test_case& c)
{
    const auto world = fresh("world");
    const auto tmp = world / "tmp";
    const auto away = world / "away";
    fs::create_directories(tmp);
    fs::create_directories(away);
    setenv("TMPDIR", tmp.c_str(), 1);
    const int n = c.irange(1000, 1500);
    c.note(pbt::cat(n, " directories each in the standard place, a relative and an absolute one"));
    std::vector<std::unique_ptr<temp_dir>> dirs;
    std::set<std::string> names;
    for (int i = 0; i < n; ++i)
        for (auto& p : {fs::path(), fs::path("sub"), away}) {
            dirs.push_back(std::make_unique<temp_dir>(p));
            PBT_REQUIRE("repeated", names.insert(dirs.back()->path().string()).second, dirs.back()->path().string());
        }
    dirs.clear();
    for (auto& p : {tmp / "sub", away}) PBT_REQUIRE("left-behind", fs::is_empty(p), "there is something left in ", p.string());
    c.label("many");
    c.nontrivial();
}

void run(pbt::test_case& c)
{
    if (c.draw(999) == 0) run_many(c);
    else if (c.chance(20)) run_uuids(c);
    else run_dirs(c);
}

} // namespace

int main(int argc, char** argv)
{
    pbt::spec s;
    s.id = "C31";
    s.rule = "Cases are histories of creating (with every kind of parent), populating (also with links that lead elsewhere), moving and destroying temporary directories, with a snapshot of everything around them compared after every step, and batches of UUIDs made in several threads and freshly forked processes. Non-trivial: a directory was made, or several UUIDs.";
    s.quick_cases = 20000;
    s.thorough_cases = 400000;
    s.run = run;
    return pbt::main(argc, argv, s);
}
