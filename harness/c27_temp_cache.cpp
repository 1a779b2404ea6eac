// C27: the temporary file cache grants exclusive write or shared read access.
#include "fstree.hpp"
#include "keys.hpp"

#include <cosim/file_cache.hpp>

#include <deque>
#include <memory>
#include <optional>

using namespace fstree;

namespace
{

struct subdir
{
    fs::path path; // as of the first grant
    tree contents;
};

struct cache_model
{
    std::unique_ptr<cosim::temporary_file_cache> cache; // null after destruction
    fs::path root; // the entry it made in the temporary directory
    std::map<std::string, subdir> subdirs;
    int handles = 0;
};

struct handle
{
    std::size_t cache;
    std::string key;
    std::unique_ptr<cosim::file_cache::directory_rw> rw;
    std::unique_ptr<cosim::file_cache::directory_ro> ro;
    fs::path path() const { return rw ? rw->path() : ro->path(); }
};

bool inside(const fs::path& p, const fs::path& root)
{
    const auto rel = fs::weakly_canonical(p).lexically_relative(fs::canonical(root));
    return !rel.empty() && rel != "." && *rel.begin() != "..";
}

void run(pbt::test_case& c)
{
    const auto world = fresh("world");
    const auto tmp = world / "tmp";
    fs::create_directories(tmp);
    spit(world / "sentinel", "x");
    fs::create_directories(tmp / "other.data");
    spit(tmp / "other.data" / "f", "y");
    setenv("TMPDIR", tmp.c_str(), 1);

    std::vector<cache_model> caches;
    std::vector<handle> handles;
    std::vector<std::string> keys;
    int counter = 0;

    auto children = [&] {
        std::set<fs::path> r;
        for (auto& e : fs::directory_iterator(tmp)) r.insert(e.path());
        return r;
    };
    auto new_cache = [&] {
        const auto before = children();
        cache_model m;
        m.cache = std::make_unique<cosim::temporary_file_cache>();
        std::vector<fs::path> added;
        for (auto& p : children())
            if (!before.count(p)) added.push_back(p);
        PBT_REQUIRE("root", added.size() == 1 && fs::is_directory(added[0]), "a new cache made ", added.size(), " entries in the temporary directory");
        m.root = added[0];
        caches.push_back(std::move(m));
    };
    auto check_all = [&] {
        // the temporary directory holds the roots of the caches in use, and nothing else changes
        std::set<fs::path> want{tmp / "other.data"};
        for (auto& m : caches) {
            if (m.cache || m.handles > 0) want.insert(m.root);
            if (m.cache) PBT_REQUIRE("root-lost", fs::is_directory(m.root), m.root.string());
        }
        const auto got = children();
        for (auto& m : caches)
            if (!m.cache && m.handles == 0) PBT_REQUIRE("root-left", !fs::exists(fs::symlink_status(m.root)), m.root.string(), " is still there after its cache was destroyed");
        PBT_REQUIRE("outside", got == want, "entries of the temporary directory: ", got.size(), " instead of ", want.size());
        PBT_REQUIRE("outside", slurp(world / "sentinel") == "x" && slurp(tmp / "other.data" / "f") == "y" && std::distance(fs::directory_iterator(world), fs::directory_iterator()) == 2 && std::distance(fs::directory_iterator(tmp / "other.data"), fs::directory_iterator()) == 1, "something outside the cache was changed");
        for (auto& m : caches) {
            for (auto& [k, s] : m.subdirs) {
                bool held = false;
                for (auto& h : handles) held = held || (&caches[h.cache] == &m && h.key == k);
                if (!m.cache && !held) continue;
                PBT_REQUIRE("lost", fs::is_directory(s.path), "the directory of key ", pbt::quote(k), " is gone");
                const auto d = diff(s.contents, snapshot(s.path));
                PBT_REQUIRE("contents", d.empty(), "key ", pbt::quote(k), ": ", d);
            }
        }
    };

    new_cache();
    bool refused = false, granted = false, reused = false;
    c.repeat(1, c.sized(8, 60), c.sized(4, 25), [&](int) {
        auto pick_key = [&] {
            if (!keys.empty() && c.chance(65)) return c.pick(keys);
            const auto k = gen_key(c);
            if (std::find(keys.begin(), keys.end(), k) == keys.end()) keys.push_back(k);
            return k;
        };
        const auto what = c.weighted({8, 6, 7, 6, 1, 1, 1});
        std::vector<std::size_t> alive;
        for (std::size_t i = 0; i < caches.size(); ++i)
            if (caches[i].cache) alive.push_back(i);
        if (alive.empty() && what != 2 && what != 3) {
            if (caches.size() > 4) return;
            new_cache();
            c.note("new cache");
            return;
        }
        switch (what) {
            case 0:
            case 1: {
                const auto ci = c.pick(alive);
                auto& m = caches[ci];
                const auto key = pick_key();
                bool anyRw = false, any = false;
                for (auto& h : handles)
                    if (h.cache == ci && h.key == key) {
                        any = true;
                        anyRw = anyRw || h.rw;
                    }
                const bool rw = what == 0;
                const bool known = m.subdirs.count(key) != 0;
                const bool want = rw ? !any : (known && !anyRw);
                c.note(pbt::cat(rw ? "rw " : "ro ", pbt::quote(key), " from cache ", ci, want ? "" : " (refused)"));
                handle h{ci, key, nullptr, nullptr};
                bool ok = true;
                try {
                    if (rw) h.rw = m.cache->get_directory_rw(key);
                    else h.ro = m.cache->get_directory_ro(key);
                } catch (const std::exception&) {
                    ok = false;
                }
                if (!ok && want) pbt::fail("refused", pbt::cat("access to ", pbt::quote(key), " was refused"));
                if (ok && !want) pbt::fail("granted", pbt::cat(rw ? "read-write" : "read-only", " access to ", pbt::quote(key), " was granted although ", !rw && !known ? "the key is not in the cache" : "it is in use"));
                if (!ok) {
                    refused = true;
                    break;
                }
                granted = true;
                PBT_REQUIRE("null", h.rw || h.ro, "");
                ++m.handles;
                const auto p = h.path();
                PBT_REQUIRE("exists", fs::is_directory(p), p.string(), " for key ", pbt::quote(key));
                PBT_REQUIRE("inside", inside(p, m.root), p.string(), " is not in the cache's root ", m.root.string());
                if (known) {
                    PBT_REQUIRE("same", fs::equivalent(p, m.subdirs[key].path), "key ", pbt::quote(key), " now at ", p.string(), ", not ", m.subdirs[key].path.string());
                    reused = true;
                } else {
                    for (auto& [k, s] : m.subdirs) PBT_REQUIRE("distinct", !fs::equivalent(p, s.path), "keys ", pbt::quote(k), " and ", pbt::quote(key), " share ", p.string());
                    m.subdirs[key] = {p, {}};
                }
                handles.push_back(std::move(h));
                break;
            }
            case 2: { // release
                if (handles.empty()) break;
                const auto i = c.draw(handles.size() - 1);
                c.note("release " + pbt::quote(handles[i].key));
                --caches[handles[i].cache].handles;
                handles.erase(handles.begin() + static_cast<std::ptrdiff_t>(i));
                break;
            }
            case 3: { // write or delete through a read-write handle
                std::vector<handle*> w;
                for (auto& h : handles)
                    if (h.rw) w.push_back(&h);
                if (w.empty()) break;
                auto& h = *c.pick(w);
                auto& t = caches[h.cache].subdirs[h.key].contents;
                const auto name = c.one_of<std::string>({"f", "g", "d/f", "d/e/f", ".hidden", "a", "lock"});
                if (t.count(name) && c.chance(30)) {
                    fs::remove(h.path() / name);
                    t.erase(name);
                    break;
                }
                fs::create_directories((h.path() / name).parent_path());
                for (auto d = fs::path(name).parent_path(); !d.empty(); d = d.parent_path()) t[d.string()] = "<dir>";
                const auto text = pbt::cat("text ", ++counter);
                spit(h.path() / name, text);
                t[name] = "=" + text;
                break;
            }
            case 4: { // another cache
                if (caches.size() > 4) break;
                c.note("new cache");
                new_cache();
                break;
            }
            case 5: { // destroy one
                const auto i = c.pick(alive);
                c.note(pbt::cat("destroy cache ", i));
                c.label("destroy");
                caches[i].cache.reset();
                break;
            }
            default: { // move one
                const auto i = c.pick(alive);
                if (alive.size() > 1 && c.chance(50)) {
                    const auto j = c.pick(alive);
                    if (i == j) break;
                    // j takes over i's contents, and its own are destroyed
                    c.note(pbt::cat("move cache ", i, " into ", j));
                    *caches[j].cache = std::move(*caches[i].cache);
                    auto o = std::move(caches[j].cache);
                    caches[i].cache = std::move(o);
                } else {
                    c.note(pbt::cat("move cache ", i));
                    caches[i].cache = std::make_unique<cosim::temporary_file_cache>(std::move(*caches[i].cache));
                }
                c.label("moved");
            }
        }
        check_all();
    });
    if (granted) c.label("granted");
    if (refused) c.label("refused");
    if (granted && (refused || reused)) c.nontrivial();
    // the end of everything, in some order
    while (!handles.empty() || std::any_of(caches.begin(), caches.end(), [](auto& m) { return !!m.cache; })) {
        if (!handles.empty() && c.chance(60)) {
            --caches[handles.back().cache].handles;
            handles.pop_back();
        } else {
            auto it = std::find_if(caches.begin(), caches.end(), [](auto& m) { return !!m.cache; });
            if (it != caches.end()) it->cache.reset();
            else if (!handles.empty()) {
                --caches[handles.back().cache].handles;
                handles.pop_back();
            }
        }
        check_all();
    }
}

} // namespace

int main(int argc, char** argv)
{
    pbt::spec s;
    s.id = "C27";
    s.rule = "Cases are histories of acquiring (read-write or read-only, ordinary and hostile keys), writing, deleting and releasing through up to five temporary file caches, which are also moved and destroyed; after every step the model's directories and everything around them are compared with the disk. Non-trivial: access was granted, and a request was refused or a key used again.";
    s.quick_cases = 24000;
    s.thorough_cases = 400000;
    s.run = run;
    return pbt::main(argc, argv, s);
}
