// C30: ZIP extraction reproduces the archive's contents and stays inside its target.
#include "fstree.hpp"
#include "zipfile.hpp"

#include <cosim/utility/zip.hpp>

#include <csignal>
#include <fcntl.h>
#include <sys/resource.h>
#include <zip.h>

using namespace fstree;
namespace zp = cosim::utility::zip;
using namespace zipfile;

namespace
{

/// The same by way of libzip.
bool make_libzip(const fs::path& p, const std::vector<entry>& es)
{
    int err = 0;
    auto z = zip_open(p.c_str(), ZIP_CREATE | ZIP_TRUNCATE, &err);
    if (!z) return false;
    for (auto& e : es) {
        zip_int64_t i;
        if (e.dir()) i = zip_dir_add(z, e.name.c_str(), ZIP_FL_ENC_UTF_8);
        else {
            i = zip_file_add(z, e.name.c_str(), zip_source_buffer(z, e.data.data(), e.data.size(), 0), ZIP_FL_ENC_UTF_8);
            if (i >= 0) zip_set_file_compression(z, static_cast<zip_uint64_t>(i), e.deflate ? ZIP_CM_DEFLATE : ZIP_CM_STORE, 0);
        }
        if (i < 0) {
            zip_discard(z);
            return false;
        }
    }
    return zip_close(z) == 0;
}

std::string gen_data(pbt::test_case& c)
{
    switch (c.weighted({3, 4, 2, 1})) {
        case 0: return "";
        case 1: return c.bytes(40);
        case 2: return std::string(static_cast<std::size_t>(c.irange(1, 5000)), static_cast<char>(c.draw(255)));
        default: {
            std::string s;
            pbt::rng r(c.draw(1000));
            const auto n = static_cast<std::size_t>(c.one_of({65535, 65536, 65537, 100, 8191, 8192, 8193, 131072, 200000}));
            while (s.size() < n) s += static_cast<char>(r.next() >> 33);
            return s;
        }
    }
}

const std::vector<std::string> parts{"a", "b", "c", "A", "modelDescription.xml", "resources", "x y", "\xc3\xa6", ".hid", "..x", "x..", "...", "a.b", "%2e", "c\\d", "~", "-", "*"};

std::vector<entry> gen_entries(pbt::test_case& c)
{
    std::vector<entry> es;
    std::set<std::string> files, dirs;
    auto is_dir_prefix = [&](const std::string& n) { // some entry is below n
        for (auto& f : files)
            if (f.rfind(n + "/", 0) == 0) return true;
        for (auto& d : dirs)
            if (d == n || d.rfind(n + "/", 0) == 0) return true;
        return false;
    };
    auto below_file = [&](const std::string& n) {
        for (auto& f : files)
            if (n.rfind(f + "/", 0) == 0) return true;
        return false;
    };
    c.repeat(0, c.sized(4, 12), c.sized(2, 6), [&](int) {
        std::string n;
        c.repeat(1, 4, 1.8, [&](int) { n += (n.empty() ? "" : "/") + c.pick(parts); });
        if (files.count(n) || below_file(n)) return;
        if (c.chance(25)) {
            if (!dirs.insert(n).second) return;
            es.push_back({n + "/", "", false});
        } else {
            if (is_dir_prefix(n)) return;
            files.insert(n);
            es.push_back({n, gen_data(c), c.chance(50)});
        }
    });
    return es;
}

tree expected(const std::vector<entry>& es)
{
    tree t;
    for (auto& e : es) {
        const auto n = e.dir() ? e.name.substr(0, e.name.size() - 1) : e.name;
        for (auto d = fs::path(n).parent_path(); !d.empty(); d = d.parent_path()) t[d.string()] = "<dir>";
        t[n] = e.dir() ? "<dir>" : "=" + e.data;
    }
    return t;
}

struct world
{
    fs::path root, target, zip;
    tree before;
};

world make_world()
{
    world w;
    w.root = fresh("world");
    w.target = w.root / "x" / "target";
    w.zip = w.root / "in.zip";
    fs::create_directories(w.target);
    spit(w.root / "x" / "sentinel", "s");
    fs::create_directories(w.root / "x" / "a");
    return w;
}

tree outside(const world& w)
{
    auto t = snapshot(w.root);
    for (auto it = t.begin(); it != t.end();) {
        if (it->first.rfind("x/target/", 0) == 0) it = t.erase(it);
        else ++it;
    }
    return t;
}

void check_listing(pbt::test_case& c, const zp::archive& a, const std::vector<entry>& es)
{
    PBT_REQUIRE("count", a.entry_count() == es.size(), a.entry_count(), " entries instead of ", es.size());
    for (std::size_t i = 0; i < es.size(); ++i) {
        PBT_REQUIRE("name", a.entry_name(i) == es[i].name, pbt::quote(a.entry_name(i)), " instead of ", pbt::quote(es[i].name));
        PBT_REQUIRE("is-dir", a.is_dir_entry(i) == es[i].dir(), pbt::quote(es[i].name));
        PBT_REQUIRE("find", a.find_entry(es[i].name) == i, pbt::quote(es[i].name), " found at ", a.find_entry(es[i].name), " instead of ", i);
    }
    std::set<std::string> names;
    for (auto& e : es) names.insert(e.name);
    for (auto n : {std::string("a"), std::string("a/"), std::string("A"), std::string("MODELDESCRIPTION.XML"), std::string("zzz"), c.pick(parts) + "/" + c.pick(parts)})
        if (!names.count(n)) PBT_REQUIRE("found", a.find_entry(n) == zp::invalid_entry_index, "found ", pbt::quote(n), ", which is not there");
    const auto bad = es.size() + c.draw(5);
    auto throws = [&](const char* what, auto&& f) {
        try {
            f();
        } catch (const zp::error&) {
            return;
        }
        pbt::fail("bad-index", pbt::cat(what, " accepts index ", bad, " of ", es.size()));
    };
    throws("entry_name", [&] { a.entry_name(bad); });
    throws("is_dir_entry", [&] { a.is_dir_entry(bad); });
    throws("extract_file_to", [&] { a.extract_file_to(bad, fs::path(pbt::scratch()) / "world" / "x" / "target"); });
}

void run_valid(pbt::test_case& c)
{
    auto w = make_world();
    const auto es = gen_entries(c);
    for (auto& e : es) c.note(pbt::cat("entry ", pbt::quote(e.name), ", ", e.data.size(), " bytes", e.deflate ? ", deflated" : ""));
    if (es.empty() || c.chance(50) || !make_libzip(w.zip, es)) spit(w.zip, make_zip(es, c.chance(20) ? "#!junk before\n" : "", c.chance(20) ? "a comment" : ""));
    // what is in the target already stays, unless it is overwritten
    tree pre;
    const auto exp = expected(es);
    if (c.chance(30)) {
        spit(w.target / "other", "before");
        pre["other"] = "=before";
        for (auto& e : es)
            if (!e.dir() && e.name.find('/') == std::string::npos && c.chance(50)) spit(w.target / e.name, "something long, that was there before" + std::string(c.draw(20000), 'x'));
    }
    const auto zipBytes = slurp(w.zip);
    const auto before = outside(w);
    zp::archive a;
    PBT_REQUIRE("is-open", !a.is_open(), "");
    if (c.chance(50)) a = zp::archive(w.zip);
    else a.open(w.zip);
    PBT_REQUIRE("is-open", a.is_open(), "");
    if (c.chance(20)) {
        zp::archive b(std::move(a));
        PBT_REQUIRE("moved", !a.is_open() && b.is_open(), "");
        if (c.chance(50)) a.open(w.zip); // replaced while open
        a = std::move(b);
        PBT_REQUIRE("moved", a.is_open() && !b.is_open(), "");
        c.label("moved");
    }
    check_listing(c, a, es);
    if (c.chance(60)) {
        a.extract_all(w.target);
        auto want = exp;
        want.insert(pre.begin(), pre.end());
        const auto d = diff(want, snapshot(w.target));
        PBT_REQUIRE("contents", d.empty(), d);
        c.label("all");
        if (c.chance(10)) { // once more over itself
            a.extract_all(w.target);
            const auto d2 = diff(want, snapshot(w.target));
            PBT_REQUIRE("contents", d2.empty(), d2);
        }
    } else if (!es.empty()) {
        auto want = snapshot(w.target);
        c.repeat(1, 4, 2, [&](int) {
            const auto i = c.draw(es.size() - 1);
            if (es[i].dir()) return;
            const auto base = fs::path(es[i].name).filename().string();
            const auto p = a.extract_file_to(i, w.target);
            PBT_REQUIRE("path", p == w.target / base, p.string(), " for ", pbt::quote(es[i].name));
            want[base] = "=" + es[i].data;
            const auto d = diff(want, snapshot(w.target));
            PBT_REQUIRE("contents", d.empty(), "after extracting ", pbt::quote(es[i].name), ": ", d);
        });
        c.label("single");
    }
    const auto d = diff(before, outside(w));
    PBT_REQUIRE("outside", d.empty(), d);
    PBT_REQUIRE("archive-changed", slurp(w.zip) == zipBytes, "");
    a.discard();
    PBT_REQUIRE("is-open", !a.is_open(), "");
    a.discard();
    if (c.chance(20)) { // a target which is none
        zp::archive b(w.zip);
        for (const auto& t : {w.root / "none", w.root / "in.zip"}) {
            try {
                b.extract_all(t);
                pbt::fail("bad-target", "extraction to something that is not a directory succeeds");
            } catch (const std::system_error&) {
            }
        }
        const auto d3 = diff(before, outside(w));
        PBT_REQUIRE("outside", d3.empty(), d3);
    }
    if (es.size() > 1) c.nontrivial();
}

/// Whether a name has no component of special meaning.
bool plain(const std::string& n)
{
    if (n.empty() || n[0] == '/') return false;
    std::string part;
    for (char ch : n + "/") {
        if (ch == '/') {
            if (part == "." || part == "..") return false;
            part.clear();
        } else part += ch;
    }
    return n.find("//") == std::string::npos;
}

void run_hostile(pbt::test_case& c)
{
    auto w = make_world();
    auto es = gen_entries(c);
    std::set<std::string> hostile;
    c.repeat(1, 3, 1.5, [&](int) {
        std::string n;
        if (c.chance(40)) n = c.one_of<std::string>({"../evil", "..", "../", "../sentinel", "a/../../evil", "a/../../sentinel", "../../in.zip", "/", "//", "", ".", "./", "./a", "a/./b", "a//b", "a/..", "a/../", "a/../b", "../target/evil", "../targetx", "../a/evil", "../a/", "...", "....//evil", "..\\evil", "C:\\evil", "C:/evil"});
        else c.repeat(1, 5, 3, [&](int) { n += c.one_of<std::string>({"..", "/", "a", "../", ".", "b", "//", "target", "x", "sentinel"}); });
        if (!n.empty() && n[0] == '/') n = w.root.string() + n; // keeps even these inside of the scratch directory
        for (auto& e : es)
            if (e.name == n) return;
        hostile.insert(n);
        es.insert(es.begin() + static_cast<std::ptrdiff_t>(c.draw(es.size())), entry{n, !n.empty() && n.back() == '/' ? "" : "evil" + c.bytes(5), c.chance(30)});
    });
    for (auto& e : es) c.note(pbt::cat("entry ", pbt::quote(e.name), ", ", e.data.size(), " bytes"));
    spit(w.zip, make_zip(es, "", ""));
    const auto before = outside(w);
    bool threw = false;
    try {
        zp::archive a(w.zip);
        for (std::size_t i = 0; i < es.size(); ++i) PBT_REQUIRE("is-dir", a.is_dir_entry(i) == es[i].dir(), pbt::quote(es[i].name));
        const bool all = c.chance(60);
        if (all) a.extract_all(w.target);
        else
            for (std::size_t i = 0; i < es.size(); ++i) {
                try {
                    const auto p = a.extract_file_to(i, w.target);
                    PBT_REQUIRE("path", p.parent_path() == w.target, p.string(), " for ", pbt::quote(es[i].name));
                    PBT_REQUIRE("contents", slurp(p) == es[i].data, pbt::quote(es[i].name));
                } catch (const std::exception&) {
                    const auto base = fs::path(es[i].name).filename().string();
                    if (plain(es[i].name) && !es[i].dir() && !fs::is_directory(w.target / base)) throw;
                }
            }
        const bool clean = std::all_of(es.begin(), es.end(), [](auto& e) { return plain(e.name); });
        if (all && clean && hostile.empty()) {
            const auto d = diff(expected(es), snapshot(w.target));
            PBT_REQUIRE("contents", d.empty(), d);
        }
        if (all) c.label("extracted");
    } catch (const std::exception&) {
        threw = true;
        c.label("refused");
    }
    const auto d = diff(before, outside(w));
    PBT_REQUIRE("outside", d.empty(), d);
    c.label("hostile");
    if (threw || !hostile.empty()) c.nontrivial();
}

void run_corrupt(pbt::test_case& c)
{
    auto w = make_world();
    const auto es = gen_entries(c);
    for (auto& e : es) c.note(pbt::cat("entry ", pbt::quote(e.name), ", ", e.data.size(), " bytes", e.deflate ? ", deflated" : ""));
    auto z = make_zip(es, "", "");
    if (c.chance(35)) {
        const auto n = c.chance(50) ? c.draw(z.size() - 1) : z.size() - 1 - c.draw(std::min<std::size_t>(z.size() - 1, 80));
        c.note(pbt::cat("truncated from ", z.size(), " to ", n));
        z.resize(n);
        c.label("truncated");
    } else if (c.chance(10)) {
        z = c.bytes(60);
        c.note("other bytes: " + pbt::quote(z));
    } else {
        c.repeat(1, 3, 1.3, [&](int) {
            // preferably in headers rather than in long contents
            auto i = c.chance(50) ? c.draw(z.size() - 1) : c.chance(50) ? c.draw(std::min<std::size_t>(z.size() - 1, 60)) : z.size() - 1 - c.draw(std::min<std::size_t>(z.size() - 1, 200));
            const auto v = static_cast<char>(c.draw(255));
            c.note(pbt::cat("byte ", i, " of ", z.size(), " changed from ", int(static_cast<unsigned char>(z[i])), " to ", int(static_cast<unsigned char>(v))));
            z[i] = v;
        });
        c.label("flipped");
    }
    spit(w.zip, z);
    const auto before = outside(w);
    std::map<std::string, std::string> contents;
    for (auto& e : es)
        if (!e.dir()) contents[e.name] = e.data;
    bool threw = false;
    auto check_one = [&](const std::string& name, const fs::path& p) {
        if (!contents.count(name) || !fs::is_regular_file(p)) return;
        PBT_REQUIRE("silently-wrong", slurp(p) == contents[name], "entry ", pbt::quote(name), " is extracted with ", fs::file_size(p), " bytes of wrong contents and no error");
    };
    try {
        zp::archive a(w.zip);
        // what the damaged archive says the entries are
        std::map<std::string, int> count;
        std::vector<std::string> names;
        for (std::uint64_t i = 0; i < a.entry_count(); ++i) {
            names.push_back(a.entry_name(i));
            ++count[fs::path(names.back()).lexically_normal().string()];
        }
        for (std::uint64_t i = 0; i < a.entry_count(); ++i) a.is_dir_entry(i);
        if (c.chance(50)) {
            a.extract_all(w.target);
            for (auto& n : names)
                if (count[fs::path(n).lexically_normal().string()] == 1) check_one(n, w.target / n);
        } else {
            for (std::uint64_t i = 0; i < names.size(); ++i) {
                try {
                    check_one(names[i], a.extract_file_to(i, w.target));
                } catch (const std::exception&) {
                    threw = true;
                }
            }
        }
    } catch (const std::exception&) {
        threw = true;
    }
    const auto d = diff(before, outside(w));
    PBT_REQUIRE("outside", d.empty(), d);
    c.label(threw ? "corruption-refused" : "corruption-harmless");
    if (threw) c.nontrivial();
}

/// The disk fills up, as it were: no file can be longer than some limit.
void run_full(pbt::test_case& c)
{
    auto w = make_world();
    const auto es = gen_entries(c);
    std::size_t longest = 0;
    for (auto& e : es) longest = std::max(longest, e.data.size());
    if (longest == 0) c.discard();
    for (auto& e : es) c.note(pbt::cat("entry ", pbt::quote(e.name), ", ", e.data.size(), " bytes"));
    spit(w.zip, make_zip(es, "", ""));
    const auto limit = c.chance(50) ? c.draw(longest) : longest - std::min<std::size_t>(longest, c.draw(10));
    c.note(pbt::cat("files may have ", limit, " bytes"));
    const auto before = outside(w);
    signal(SIGXFSZ, SIG_IGN);
    rlimit old{};
    getrlimit(RLIMIT_FSIZE, &old);
    rlimit now = old;
    now.rlim_cur = limit;
    setrlimit(RLIMIT_FSIZE, &now);
    bool threw = false;
    try {
        zp::archive a(w.zip);
        a.extract_all(w.target);
    } catch (const std::exception&) {
        threw = true;
    }
    setrlimit(RLIMIT_FSIZE, &old);
    if (!threw) {
        const auto d = diff(expected(es), snapshot(w.target));
        PBT_REQUIRE("silently-wrong", d.empty(), d);
    }
    const bool fits = limit >= longest;
    PBT_REQUIRE("io-error", !(threw && fits), "extraction failed although everything fits");
    const auto d = diff(before, outside(w));
    PBT_REQUIRE("outside", d.empty(), d);
    c.label("write-fault");
    c.nontrivial();
}

/// How many files this process has open.
int open_files()
{
    int n = 0;
    for (int fd = 0; fd < 200; ++fd) n += fcntl(fd, F_GETFD) != -1;
    return n;
}

/// Archives are opened, moved around, closed and forgotten, and always hold their own file open and no other.
void run_lives(pbt::test_case& c)
{
    auto w = make_world();
    std::vector<std::vector<entry>> contents;
    std::vector<fs::path> files;
    for (int i = 0; i < 3; ++i) {
        contents.push_back(gen_entries(c));
        files.push_back(w.zip.string() + std::to_string(i));
        spit(files.back(), make_zip(contents.back(), "", ""));
    }
    const int before = open_files();
    std::vector<zp::archive> as(3);
    std::vector<int> holds(3, -1);
    c.repeat(2, c.sized(6, 16), 5, [&](int) {
        const auto i = c.draw(2);
        switch (c.weighted({4, 4, 2, 2})) {
            case 0: {
                const auto f = c.draw(2);
                if (holds[i] >= 0) return;
                c.note(pbt::cat("archive ", i, " opens file ", f));
                as[i].open(files[f]);
                holds[i] = static_cast<int>(f);
                break;
            }
            case 1: {
                const auto j = c.draw(2);
                if (i == j) return;
                c.note(pbt::cat("archive ", j, " becomes archive ", i));
                if (holds[i] >= 0 && holds[j] >= 0) c.label("moved over an open one");
                as[j] = std::move(as[i]);
                holds[j] = holds[i];
                holds[i] = -1;
                c.nontrivial();
                break;
            }
            case 2: {
                c.note(pbt::cat("archive ", i, " is passed on, and back"));
                auto other = std::move(as[i]);
                PBT_REQUIRE("moved-from", !as[i].is_open(), "still open after it was moved from");
                as[i] = std::move(other);
                break;
            }
            default:
                c.note(pbt::cat("archive ", i, " is discarded"));
                as[i].discard();
                holds[i] = -1;
        }
        int open = 0;
        for (std::size_t k = 0; k < 3; ++k) {
            PBT_REQUIRE("is-open", as[k].is_open() == (holds[k] >= 0), "archive ", k);
            if (holds[k] < 0) continue;
            ++open;
            const auto& es = contents[static_cast<std::size_t>(holds[k])];
            PBT_REQUIRE("entries", as[k].entry_count() == es.size(), "archive ", k, " has ", as[k].entry_count(), " entries");
            for (auto& e : es) PBT_REQUIRE("entries", as[k].find_entry(e.name) != zp::invalid_entry_index, pbt::quote(e.name), " is not found in archive ", k);
        }
        PBT_REQUIRE("files-left-open", open_files() - before <= open, open_files() - before, " files are open for ", open, " archives");
    });
    as.clear();
    PBT_REQUIRE("files-left-open", open_files() == before, open_files() - before, " files are still open after all archives are gone");
    c.label("lives");
}

void run(pbt::test_case& c)
{
    switch (c.weighted({5, 4, 4, 1, 1})) {
        case 0: run_valid(c); break;
        case 1: run_hostile(c); break;
        case 2: run_corrupt(c); break;
        case 3: run_full(c); break;
        default: run_lives(c);
    }
}

} // namespace

int main(int argc, char** argv)
{
    pbt::spec s;
    s.id = "C30";
    s.rule = "Cases are archives made by an independent ZIP writer or libzip: valid ones (listed, searched and extracted, whole or entry by entry, also over existing files), ones with hostile entry names, truncated and damaged ones, extraction with writes that fail at a given file size, and archives that are opened, moved and discarded in any order; a snapshot of the whole surroundings is compared. Non-trivial: at least two entries, a hostile name, an error raised, a write limit, or an archive moved to another.";
    s.quick_cases = 24000;
    s.thorough_cases = 500000;
    s.run = run;
    return pbt::main(argc, argv, s);
}
