#include "pbt.hpp"

#include <cerrno>
#include <chrono>
#include <cmath>
#include <csignal>
#include <cstdlib>
#include <fcntl.h>
#include <grp.h>
#include <fstream>
#include <memory>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <typeinfo>
#include <cxxabi.h>
#include <unistd.h>

#if defined(__SANITIZE_ADDRESS__)
extern "C" const char* __asan_default_options()
{
    return "detect_leaks=0:exitcode=99:abort_on_error=0:handle_abort=0:allocator_may_return_null=1:detect_stack_use_after_return=0:max_allocation_size_mb=2048:quarantine_size_mb=16";
}
extern "C" const char* __ubsan_default_options()
{
    return "print_stacktrace=1:halt_on_error=1:exitcode=97";
}
#endif
#if defined(__SANITIZE_THREAD__)
extern "C" const char* __tsan_default_options()
{
    return "halt_on_error=1:exitcode=98:report_signal_unsafe=0:die_after_fork=0:second_deadlock_stack=1";
}
#endif

namespace pbt
{

constexpr std::size_t max_choices = 1u << 16;
constexpr std::size_t max_message = 1u << 14;

enum run_status
{
    st_running,
    st_failed,
    st_passed,
    st_discarded,
    st_finished
};

struct shared_state
{
    volatile long case_index;
    volatile long heartbeat;
    volatile int status;
    volatile std::size_t count;
    volatile long evaluations;
    char tag[256];
    char message[max_message];
    char text[max_message];
    std::uint64_t choices[max_choices];
};

namespace
{

std::string scratchDir;

double now()
{
    using namespace std::chrono;
    return duration<double>(steady_clock::now().time_since_epoch()).count();
}

void copy_text(char* dst, std::size_t n, const std::string& s)
{
    const auto m = std::min(n - 1, s.size());
    std::memcpy(dst, s.data(), m);
    dst[m] = 0;
}

std::uint64_t mix(std::uint64_t a, std::uint64_t b)
{
    rng r(a * 0x9e3779b97f4a7c15ull + b);
    r.next();
    return r.next();
}

std::string demangle(const char* n)
{
    int st = 0;
    std::unique_ptr<char, void (*)(void*)> p(abi::__cxa_demangle(n, nullptr, nullptr, &st), std::free);
    return st == 0 ? p.get() : n;
}

std::string json_escape(const std::string& s)
{
    std::string r;
    for (unsigned char c : s) {
        switch (c) {
            case '"': r += "\\\""; break;
            case '\\': r += "\\\\"; break;
            case '\n': r += "\\n"; break;
            case '\t': r += "\\t"; break;
            case '\r': r += "\\r"; break;
            default:
                if (c < 0x20 || c >= 0x7f) {
                    char b[8];
                    std::snprintf(b, sizeof b, "\\u%04x", c);
                    r += b;
                } else
                    r += static_cast<char>(c);
        }
    }
    return r;
}

} // namespace

std::string scratch()
{
    return scratchDir;
}

std::string quote(std::string_view s)
{
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            r += '\\';
            r += static_cast<char>(c);
        } else if (c < 0x20 || c >= 0x7f) {
            char b[8];
            std::snprintf(b, sizeof b, "\\x%02x", c);
            r += b;
        } else
            r += static_cast<char>(c);
    }
    return r + "\"";
}

test_case::test_case(shared_state* shm, std::uint64_t seed, int size, const std::vector<std::uint64_t>* replay, bool verbose)
    : shm_(shm)
    , rng_(seed)
    , size_(size)
    , replay_(replay)
    , verbose_(verbose)
{
    shm_->count = 0;
}

std::uint64_t test_case::draw(std::uint64_t max)
{
    std::uint64_t v = 0;
    if (pos_ < max_choices) {
        if (replay_) {
            v = pos_ < replay_->size() ? (*replay_)[pos_] : 0;
            if (v > max) v = max;
        } else if (max > 0) {
            const auto r = rng_.next();
            v = max == UINT64_MAX ? r : static_cast<std::uint64_t>((static_cast<unsigned __int128>(r) * (static_cast<unsigned __int128>(max) + 1)) >> 64);
        }
        shm_->choices[pos_] = v;
        shm_->count = pos_ + 1;
    }
    ++pos_;
    choiceHash_ = (choiceHash_ ^ v) * 1099511628211ull;
    return v;
}

int test_case::weighted(std::initializer_list<int> weights)
{
    int total = 0;
    for (auto w : weights) total += w;
    auto v = static_cast<int>(draw(static_cast<std::uint64_t>(total) - 1));
    int i = 0;
    for (auto w : weights) {
        if (v < w) return i;
        v -= w;
        ++i;
    }
    return 0;
}

std::int64_t test_case::integer(std::int64_t lo, std::int64_t hi)
{
    switch (weighted({5, 2, 1})) {
        case 0: {
            const auto a = std::max<std::int64_t>(lo, -20), b = std::min<std::int64_t>(hi, 20);
            if (a <= b) {
                // simplest: closest to zero from above
                if (a <= 0 && b >= 0) {
                    const auto v = static_cast<std::int64_t>(draw(static_cast<std::uint64_t>(b - a)));
                    return v <= b ? v : b - v;
                }
                return range(a, b);
            }
            return range(lo, hi);
        }
        case 1: return range(lo, hi);
        default: return chance(50) ? hi - range(0, std::min<std::int64_t>(2, hi - lo)) : lo + range(0, std::min<std::int64_t>(2, hi - lo));
    }
}

double test_case::real()
{
    switch (weighted({6, 4, 3, 1})) {
        case 0: {
            const auto v = static_cast<int>(draw(40));
            return v <= 20 ? v : 20 - v;
        }
        case 1: return static_cast<double>(range(-4000, 4000)) / 16.0;
        case 2: return static_cast<double>(range(-1000000000, 1000000000)) * 1e-6;
        default: {
            const double m = static_cast<double>(range(1, (1ll << 52))) / static_cast<double>(1ll << 52);
            const auto e = irange(-60, 60);
            return std::ldexp(chance(50) ? -m : m, e);
        }
    }
}

std::string test_case::ascii(int maxLen, const char* alphabet)
{
    const std::string_view a(alphabet);
    std::string s;
    const double mean = maxLen < 12 ? maxLen / 2.0 : 6.0;
    repeat(0, maxLen, mean, [&](int) { s += a[draw(a.size() - 1)]; });
    return s;
}

std::string test_case::bytes(int maxLen)
{
    std::string s;
    repeat(0, maxLen, std::min(8.0, maxLen / 2.0), [&](int) {
        s += chance(20) ? static_cast<char>(draw(255)) : static_cast<char>('a' + draw(25));
    });
    return s;
}

void test_case::identify(std::string_view s)
{
    identified_ = true;
    for (unsigned char c : s) hash_ = (hash_ ^ c) * 1099511628211ull;
    hash_ = (hash_ ^ 0xff) * 1099511628211ull;
}

void test_case::identify(std::uint64_t v)
{
    identified_ = true;
    for (int i = 0; i < 8; ++i) {
        hash_ = (hash_ ^ (v & 0xff)) * 1099511628211ull;
        v >>= 8;
    }
}

std::uint64_t test_case::identity() const
{
    return identified_ ? hash_ : choiceHash_;
}

namespace
{

struct options
{
    std::string out;
    std::uint64_t seed = 1;
    bool thorough = false;
    int worker = 0;
    int workers = 1;
    long cases = -1;
    double maxSeconds = 300;
    double shrinkSeconds = 40;
    std::string replay;
    std::set<std::string> known;
    std::string log;
    bool verbose = false;
};

struct outcome
{
    bool failed = false;
    std::string tag;
    std::string message;
    std::string text;
};

shared_state* shm = nullptr;

uid_t worker_uid(const options& o)
{
    return 63100 + static_cast<uid_t>(o.worker);
}

/// Runs the property once in this process.
run_status run_one(const spec& s, test_case& tc)
{
    auto failed = [&](const std::string& tag, const std::string& msg) {
        copy_text(shm->tag, sizeof shm->tag, tag);
        copy_text(shm->message, sizeof shm->message, msg);
        copy_text(shm->text, sizeof shm->text, tc.text());
        return st_failed;
    };
    try {
        s.run(tc);
        return st_passed;
    } catch (const discard_case&) {
        return st_discarded;
    } catch (const failure& f) {
        return failed(f.tag, f.message);
    } catch (const std::exception& e) {
        return failed("unexpected-exception", "unexpected exception of type " + demangle(typeid(e).name()) + ": " + e.what());
    } catch (...) {
        return failed("unexpected-exception", "unexpected exception of unknown type");
    }
}

/// Hands the worker's directories to an unprivileged user, which owns nothing else.
void give_away(const options& o)
{
    if (geteuid() != 0) return;
    const uid_t id = worker_uid(o);
    for (const auto& d : {o.out, scratchDir, scratchDir + "/tmp"}) {
        if (chown(d.c_str(), id, id) != 0) std::exit(3);
    }
}

void child_setup(const options& o)
{
    setpgid(0, 0);
    if (!o.verbose) {
        const int fd = open(o.log.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
        if (fd >= 0) {
            dup2(fd, 1);
            dup2(fd, 2);
            close(fd);
        }
    }
    // Code under test never runs as root: whatever a faulty path or deletion
    // does, it reaches nothing but this worker's own scratch directory.
    if (geteuid() == 0) {
        const uid_t id = worker_uid(o);
        if (setgroups(0, nullptr) != 0 || setgid(id) != 0 || setuid(id) != 0) _exit(3);
        prctl(PR_SET_DUMPABLE, 1);
    }
    prctl(PR_SET_PDEATHSIG, SIGKILL);
}

std::string log_tail(const options& o)
{
    std::ifstream f(o.log);
    std::stringstream ss;
    ss << f.rdbuf();
    auto t = ss.str();
    // the interesting part is the beginning of a sanitizer report
    for (const char* mark : {"ERROR: AddressSanitizer", "WARNING: ThreadSanitizer", "runtime error:", "Assertion", "terminate called", "fatal"}) {
        const auto p = t.find(mark);
        if (p != std::string::npos) return t.substr(p, 3000);
    }
    if (t.size() > 2000) t = t.substr(t.size() - 2000);
    return t;
}

std::string crash_tag(const options& o, int status)
{
    const auto tail = log_tail(o);
    auto word = [&](const char* mark) -> std::string {
        const auto p = tail.find(mark);
        if (p == std::string::npos) return {};
        const auto b = p + std::strlen(mark);
        auto e = tail.find_first_of(" (\n", b);
        return tail.substr(b, e - b);
    };
    if (auto w = word("ERROR: AddressSanitizer: "); !w.empty()) return "asan:" + w;
    if (auto w = word("WARNING: ThreadSanitizer: "); !w.empty()) return "tsan:" + w;
    if (tail.find("runtime error:") != std::string::npos) return "ubsan";
    if (WIFSIGNALED(status)) return "signal:" + std::to_string(WTERMSIG(status));
    return "exit:" + std::to_string(WEXITSTATUS(status));
}

/// Waits for a child, killing it if its heartbeat stops for too long. Returns false on hang.
bool wait_child(pid_t pid, double hangSeconds, int& status, bool watchHeartbeat)
{
    long lastBeat = shm->heartbeat;
    double last = now();
    useconds_t delay = 200;
    for (;;) {
        const auto r = waitpid(pid, &status, WNOHANG);
        if (r == pid) {
            kill(-pid, SIGKILL); // anything it left behind
            return true;
        }
        if (r < 0 && errno != EINTR) std::exit(3);
        usleep(delay);
        if (delay < 20000) delay *= 2;
        if (watchHeartbeat && shm->heartbeat != lastBeat) {
            lastBeat = shm->heartbeat;
            last = now();
        }
        if (now() - last > hangSeconds) {
            kill(-pid, SIGKILL);
            kill(pid, SIGKILL);
            waitpid(pid, &status, 0);
            return false;
        }
    }
}

/// Runs one recorded case in a child process.
outcome run_replay(const spec& s, const options& o, const std::vector<std::uint64_t>& choices, int size, double hangSeconds, bool verbose)
{
    shm->status = st_running;
    shm->message[0] = 0;
    shm->tag[0] = 0;
    shm->text[0] = 0;
    std::fflush(nullptr);
    const pid_t pid = fork();
    if (pid < 0) std::exit(3);
    if (pid == 0) {
        auto oo = o;
        oo.verbose = verbose;
        child_setup(oo);
        if (s.setup) s.setup();
        test_case tc(shm, 0, size, &choices, verbose);
        shm->status = run_one(s, tc);
        std::fflush(nullptr);
        _exit(0);
    }
    int status = 0;
    outcome r;
    if (!wait_child(pid, hangSeconds, status, false)) {
        r.failed = true;
        r.tag = "hang";
        r.message = "the case did not finish within " + std::to_string(hangSeconds) + " s";
        return r;
    }
    if (WIFSIGNALED(status) || WEXITSTATUS(status) != 0) {
        r.failed = true;
        r.tag = crash_tag(o, status);
        r.message = "process died: " + log_tail(o);
        return r;
    }
    if (shm->status == st_failed) {
        r.failed = true;
        r.tag = shm->tag;
        r.message = shm->message;
        r.text = shm->text;
    }
    return r;
}

struct failing_case
{
    std::vector<std::uint64_t> choices;
    int size;
    std::string tag, message, text;
};

bool simpler(const std::vector<std::uint64_t>& a, const std::vector<std::uint64_t>& b)
{
    return a.size() != b.size() ? a.size() < b.size() : a < b;
}

class shrinker
{
public:
    shrinker(const spec& s, const options& o, failing_case f)
        : s_(s)
        , o_(o)
        , best_(std::move(f))
        , deadline_(now() + o.shrinkSeconds)
    { }

    failing_case run()
    {
        while (!best_.choices.empty() && best_.choices.back() == 0) best_.choices.pop_back();
        bool progress = true;
        while (progress && !out_of_time()) {
            progress = false;
            progress |= truncate();
            for (std::size_t n : {64, 32, 16, 8, 5, 4, 3, 2, 1}) progress |= remove(n);
            for (std::size_t n : {16, 4, 1}) progress |= zero(n);
            progress |= minimise();
        }
        return best_;
    }
    long tried = 0;

private:
    bool out_of_time() const { return now() > deadline_; }

    bool attempt(std::vector<std::uint64_t> c)
    {
        while (!c.empty() && c.back() == 0) c.pop_back();
        if (!simpler(c, best_.choices) || out_of_time()) return false;
        if (!seen_.insert(hash(c)).second) return false;
        for (int i = 0; i < s_.attempts && !out_of_time(); ++i) {
            ++tried;
            const auto r = run_replay(s_, o_, c, best_.size, best_.tag == "hang" ? std::min(10.0, s_.hang_seconds) : s_.hang_seconds, false);
            if (r.failed && r.tag == best_.tag) {
                best_.choices = std::move(c);
                best_.message = r.message;
                if (!r.text.empty()) best_.text = r.text;
                return true;
            }
        }
        return false;
    }
    static std::uint64_t hash(const std::vector<std::uint64_t>& c)
    {
        std::uint64_t h = c.size();
        for (auto v : c) h = mix(h, v);
        return h;
    }
    bool truncate()
    {
        bool any = false;
        for (std::size_t n = best_.choices.size() / 2; n > 0; n /= 2) {
            while (best_.choices.size() > n) {
                auto c = best_.choices;
                c.resize(c.size() - n);
                if (!attempt(std::move(c))) break;
                any = true;
            }
        }
        return any;
    }
    bool remove(std::size_t n)
    {
        bool any = false;
        for (std::size_t i = best_.choices.size(); i-- > 0;) {
            if (out_of_time()) break;
            if (i + n > best_.choices.size()) continue;
            auto c = best_.choices;
            c.erase(c.begin() + static_cast<std::ptrdiff_t>(i), c.begin() + static_cast<std::ptrdiff_t>(i + n));
            if (attempt(std::move(c))) any = true;
        }
        return any;
    }
    bool zero(std::size_t n)
    {
        bool any = false;
        for (std::size_t i = 0; i < best_.choices.size(); i += n) {
            if (out_of_time()) break;
            auto c = best_.choices;
            for (std::size_t j = i; j < std::min(i + n, c.size()); ++j) c[j] = 0;
            if (attempt(std::move(c))) any = true;
        }
        return any;
    }
    bool minimise()
    {
        bool any = false;
        for (std::size_t i = 0; i < best_.choices.size(); ++i) {
            std::uint64_t lo = 0;
            while (i < best_.choices.size() && lo < best_.choices[i]) {
                if (out_of_time()) return any;
                const auto v = best_.choices[i];
                const auto mid = lo + (v - lo) / 2;
                auto c = best_.choices;
                c[i] = mid;
                if (attempt(c))
                    any = true;
                else
                    lo = mid + 1;
            }
        }
        return any;
    }

    const spec& s_;
    const options& o_;
    failing_case best_;
    double deadline_;
    std::unordered_set<std::uint64_t> seen_;
};

void write_replay(const std::string& path, const spec& s, const failing_case& f)
{
    std::ofstream o(path);
    o << "# pbt replay of property " << s.id << "\n";
    o << "size " << f.size << "\n";
    o << "tag " << f.tag << "\n";
    o << "choices";
    for (auto c : f.choices) o << ' ' << c;
    o << "\n";
    std::istringstream t("--- message\n" + f.message + "\n--- case\n" + f.text);
    std::string line;
    while (std::getline(t, line)) o << "# " << line << "\n";
}

bool read_replay(const std::string& path, failing_case& f)
{
    std::ifstream in(path);
    if (!in) return false;
    std::string line;
    f.size = 50;
    while (std::getline(in, line)) {
        if (line.empty() || line[0] == '#') continue;
        std::istringstream ls(line);
        std::string k;
        ls >> k;
        if (k == "size") ls >> f.size;
        if (k == "tag") std::getline(ls >> std::ws, f.tag);
        if (k == "choices") {
            std::uint64_t v;
            while (ls >> v) f.choices.push_back(v);
        }
    }
    return true;
}

/// True if the failure shows in each of three rounds (a hang, whose rounds are long: in each of two).
bool confirm(const spec& s, const options& o, failing_case& f)
{
    const int rounds = f.tag == "hang" ? 2 : 3;
    for (int round = 0; round < rounds; ++round) {
        bool again = false;
        for (int i = 0; i < s.attempts && !again; ++i) {
            const auto r = run_replay(s, o, f.choices, f.size, s.hang_seconds, false);
            again = r.failed && r.tag == f.tag;
            if (again) {
                f.message = r.message;
                if (!r.text.empty()) f.text = r.text;
            }
        }
        if (!again) return false;
    }
    return true;
}

} // namespace

int main(int argc, char** argv, const spec& s)
{
    options o;
    for (int i = 1; i < argc; ++i) {
        const std::string a = argv[i];
        auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--out") o.out = val();
        else if (a == "--seed") o.seed = std::stoull(val());
        else if (a == "--thorough") o.thorough = true;
        else if (a == "--worker") o.worker = std::stoi(val());
        else if (a == "--workers") o.workers = std::stoi(val());
        else if (a == "--cases") o.cases = std::stol(val());
        else if (a == "--max-seconds") o.maxSeconds = std::stod(val());
        else if (a == "--shrink-seconds") o.shrinkSeconds = std::stod(val());
        else if (a == "--replay") o.replay = val();
        else if (a == "--known") o.known.insert(val());
        else if (a == "--verbose") o.verbose = true;
        else if (a == "--info") {
            std::printf("{\"id\": \"%s\", \"workers\": %d, \"rule\": \"%s\"}\n", s.id.c_str(), s.workers, json_escape(s.rule).c_str());
            return 0;
        } else {
            std::fprintf(stderr, "bad argument %s\n", a.c_str());
            return 2;
        }
    }
    if (o.out.empty()) {
        std::fprintf(stderr, "--out DIR is required\n");
        return 2;
    }
    mkdir(o.out.c_str(), 0755);
    o.out += "/w" + std::to_string(o.worker);
    mkdir(o.out.c_str(), 0755);
    {
        char* rp = realpath(o.out.c_str(), nullptr);
        o.out = rp;
        std::free(rp);
    }
    scratchDir = o.out + "/scratch";
    mkdir(scratchDir.c_str(), 0755);
    const auto tmp = scratchDir + "/tmp";
    mkdir(tmp.c_str(), 0755);
    setenv("TMPDIR", tmp.c_str(), 1);
    setenv("TZ", "UTC", 1);
    if (chdir(scratchDir.c_str()) != 0) return 2;
    o.log = o.out + "/child.log";
    give_away(o);

    shm = static_cast<shared_state*>(mmap(nullptr, sizeof(shared_state), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    if (shm == MAP_FAILED) return 2;

    if (!o.replay.empty()) {
        failing_case f;
        if (!read_replay(o.replay, f)) {
            std::fprintf(stderr, "cannot read %s\n", o.replay.c_str());
            return 2;
        }
        for (int i = 0; i < s.attempts; ++i) {
            const auto r = run_replay(s, o, f.choices, f.size, s.hang_seconds, o.verbose);
            if (r.failed) {
                std::printf("FAILED tag=%s\n%s\n%s\n", r.tag.c_str(), r.message.c_str(), r.text.c_str());
                return 1;
            }
        }
        std::printf("PASSED\n");
        return 0;
    }

    const long total = o.cases >= 0 ? o.cases : (o.thorough ? s.thorough_cases : s.quick_cases);
    const double start = now();
    long next = o.worker;
    std::vector<std::string> unconfirmed;

    for (int restart = 0; next < total; ++restart) {
        shm->status = st_running;
        shm->heartbeat = 0;
        std::fflush(nullptr);
        const pid_t pid = fork();
        if (pid < 0) return 3;
        if (pid == 0) {
            child_setup(o);
            if (s.setup) s.setup();
            std::unordered_set<std::uint64_t> distinct;
            std::map<std::string, long> labels;
            std::vector<std::string> samples;
            std::map<std::string, long> knownSeen;
            long evaluations = 0, discarded = 0, nontrivial = 0;
            bool capped = false;
            auto finish = [&] {
                std::ofstream st(o.out + "/stats" + std::to_string(restart) + ".json");
                st << "{\"evaluations\": " << evaluations << ", \"discarded\": " << discarded
                   << ", \"nontrivial\": " << nontrivial << ", \"capped\": " << (capped ? "true" : "false")
                   << ", \"labels\": {";
                bool first = true;
                for (auto& [k, v] : labels) {
                    st << (first ? "" : ", ") << '"' << json_escape(k) << "\": " << v;
                    first = false;
                }
                st << "}, \"known\": {";
                first = true;
                for (auto& [k, v] : knownSeen) {
                    st << (first ? "" : ", ") << '"' << json_escape(k) << "\": " << v;
                    first = false;
                }
                st << "}, \"samples\": [";
                first = true;
                for (auto& x : samples) {
                    st << (first ? "" : ", ") << '"' << json_escape(x) << '"';
                    first = false;
                }
                st << "]}\n";
                std::ofstream d(o.out + "/distinct" + std::to_string(restart) + ".bin", std::ios::binary);
                for (auto h : distinct) d.write(reinterpret_cast<const char*>(&h), sizeof h);
            };
            for (long k = next; k < total; k += o.workers) {
                if (now() - start > o.maxSeconds) {
                    capped = true;
                    break;
                }
                shm->case_index = k;
                shm->heartbeat = shm->heartbeat + 1;
                const int size = static_cast<int>((static_cast<std::uint64_t>(k) * 37) % 100) + 1;
                test_case tc(shm, mix(mix(o.seed, std::hash<std::string>{}(s.id)), static_cast<std::uint64_t>(k)), size, nullptr, false);
                const auto r = run_one(s, tc);
                if (r == st_failed) {
                    if (o.known.count(shm->tag)) {
                        ++knownSeen[shm->tag];
                        ++evaluations;
                        continue;
                    }
                    finish();
                    shm->status = st_failed;
                    std::fflush(nullptr);
                    _exit(0);
                }
                if (r == st_discarded) {
                    ++discarded;
                    continue;
                }
                ++evaluations;
                shm->evaluations = shm->evaluations + 1;
                for (auto& l : tc.labels()) ++labels[l];
                if (tc.is_nontrivial()) {
                    ++nontrivial;
                    distinct.insert(tc.identity());
                    if (!tc.text().empty() && (samples.size() < 2 || (samples.size() < 4 && k % 97 == 0)))
                        samples.push_back(tc.text().substr(0, 1500));
                }
            }
            finish();
            shm->status = st_finished;
            std::fflush(nullptr);
            _exit(0);
        }
        int status = 0;
        failing_case f;
        const bool inTime = wait_child(pid, s.hang_seconds, status, true);
        const bool died = inTime && (WIFSIGNALED(status) || WEXITSTATUS(status) != 0);
        if (inTime && !died && shm->status == st_finished) break;
        f.choices.assign(shm->choices, shm->choices + shm->count);
        f.size = static_cast<int>((static_cast<std::uint64_t>(shm->case_index) * 37) % 100) + 1;
        const auto failedCase = shm->case_index;
        if (!inTime) {
            f.tag = "hang";
            f.message = "the case did not finish";
        } else if (died) {
            f.tag = crash_tag(o, status);
            f.message = log_tail(o);
        } else {
            f.tag = shm->tag;
            f.message = shm->message;
            f.text = shm->text;
        }
        const auto original = f;
        auto shrunk = f;
        bool ok = false;
        // The first failure must reproduce from its choices before it is worth shrinking.
        if (confirm(s, o, f)) {
            std::ofstream(o.out + "/failing") << f.tag << "\n";
            shrinker sh(s, o, f);
            shrunk = sh.run();
            ok = confirm(s, o, shrunk);
            if (!ok) {
                shrunk = f;
                ok = confirm(s, o, shrunk);
            }
        }
        if (!ok) {
            // An observation which cannot be wrong counts even if the schedule that led to it does not come back.
            for (auto& t : s.sound_tags)
                if (original.tag.compare(0, t.size(), t) == 0) {
                    shrunk = original;
                    ok = true;
                }
        }
        if (ok) {
            write_replay(o.out + "/replay.txt", s, shrunk);
            std::ofstream(o.out + "/violation") << shrunk.tag << "\n"
                                               << shrunk.message << "\n"
                                               << shrunk.text << "\n";
            return 1;
        }
        // Not reproducible: remember it, and go on behind it.
        write_replay(o.out + "/unconfirmed" + std::to_string(restart) + ".txt", s, original);
        unlink((o.out + "/failing").c_str());
        next = failedCase + o.workers;
        if (restart > 20) break;
        if (now() - start > o.maxSeconds) break;
    }
    return 0;
}

} // namespace pbt
