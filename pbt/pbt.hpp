// A small choice-sequence property-based testing engine.
//
// A test case is a deterministic function of a sequence of bounded integers
// ("choices").  Choices come from a seeded generator while exploring, and from
// a recorded sequence while shrinking and replaying.  The value 0 always stands
// for the simplest alternative, and choices missing at the end read as 0, so
// that deleting and decreasing choices simplifies a case.
//
// Cases run in child processes forked from a supervisor which never executes
// code under test.  The choices of the current case live in shared memory, so
// that a case which crashes or hangs is still known, shrunk and replayable.
#ifndef PBT_HPP
#define PBT_HPP

#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <unordered_set>
#include <utility>
#include <vector>

namespace pbt
{

struct failure
{
    std::string tag;
    std::string message;
};
struct discard_case
{
};

/// Identifies the (first) reason for failure with a tag; shrinking keeps the tag.
[[noreturn]] inline void fail(const std::string& tag, const std::string& message)
{
    throw failure{tag, message};
}

class rng
{
public:
    explicit rng(std::uint64_t seed)
        : s_(seed)
    { }
    std::uint64_t next()
    {
        std::uint64_t z = (s_ += 0x9e3779b97f4a7c15ull);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }

private:
    std::uint64_t s_;
};

struct shared_state; // see engine.cpp

class test_case
{
public:
    test_case(shared_state* shm, std::uint64_t seed, int size, const std::vector<std::uint64_t>* replay, bool verbose);

    // --- choices -------------------------------------------------------
    /// Uniform in [0, max]; 0 is simplest.
    std::uint64_t draw(std::uint64_t max);
    /// Uniform in [lo, hi]; lo is simplest.
    std::int64_t range(std::int64_t lo, std::int64_t hi)
    {
        return lo + static_cast<std::int64_t>(draw(static_cast<std::uint64_t>(hi) - static_cast<std::uint64_t>(lo)));
    }
    int irange(int lo, int hi) { return static_cast<int>(range(lo, hi)); }
    /// true with probability percent/100; false is simplest.
    bool chance(int percent)
    {
        // value 0 must mean false, the large values mean true
        return draw(99) >= static_cast<std::uint64_t>(100 - percent);
    }
    template<typename C>
    auto& pick(C& c)
    {
        if (c.size() == 0) throw std::logic_error("pbt: pick from empty container");
        auto it = c.begin();
        std::advance(it, draw(c.size() - 1));
        return *it;
    }
    template<typename T>
    T one_of(std::initializer_list<T> l)
    {
        return *(l.begin() + draw(l.size() - 1));
    }
    /// Index according to weights; index 0 is simplest.
    int weighted(std::initializer_list<int> weights);
    /// Calls f repeatedly; the number of calls is in [min, max] with the given mean.
    template<typename F>
    void repeat(int min, int max, double mean, F&& f)
    {
        int n = 0;
        while (n < max) {
            if (n >= min) {
                // continue with probability p, where mean = min + p/(1-p)
                const double extra = mean > min ? mean - min : 0.0001;
                const int p = static_cast<int>(1000.0 * extra / (1.0 + extra));
                if (draw(999) < static_cast<std::uint64_t>(1000 - p)) break;
            }
            f(n);
            ++n;
        }
    }
    /// An integer with emphasis on small and extreme values.
    std::int64_t integer(std::int64_t lo, std::int64_t hi);
    /// A finite double with emphasis on "nice" values.
    double real();
    std::string ascii(int maxLen, const char* alphabet);
    std::string bytes(int maxLen);
    template<typename T>
    void shuffle(std::vector<T>& v)
    {
        for (std::size_t i = v.size(); i > 1; --i) {
            // 0 = keep in place
            const auto j = i - 1 - draw(i - 1);
            std::swap(v[i - 1], v[j]);
        }
    }

    /// Suggested size of this case, 1..100.
    int size() const { return size_; }
    /// Scales hi with the size of the case, from lo.
    int sized(int lo, int hi) const { return lo + (hi - lo) * size_ / 100; }

    // --- reporting -----------------------------------------------------
    /// Counts the case under a label (once per case).
    void label(const std::string& l) { labels_.insert(l); }
    /// Marks the case as non-trivial.
    void nontrivial() { nontrivial_ = true; }
    /// Adds to the identity of the case (default identity: its choices).
    void identify(std::string_view s);
    void identify(std::uint64_t v);
    /// Adds text to the human-readable form of the case.
    void note(const std::string& s)
    {
        if (text_.size() < 6000) {
            text_ += s;
            text_ += '\n';
        }
        if (verbose_) std::fprintf(stderr, "%s\n", s.c_str());
    }
    bool verbose() const { return verbose_; }
    [[noreturn]] void discard() { throw discard_case{}; }

    // --- used by the engine ----------------------------------------------
    std::uint64_t identity() const;
    bool is_nontrivial() const { return nontrivial_; }
    const std::set<std::string>& labels() const { return labels_; }
    const std::string& text() const { return text_; }

private:
    shared_state* shm_;
    rng rng_;
    int size_;
    const std::vector<std::uint64_t>* replay_;
    bool verbose_;
    std::size_t pos_ = 0;
    bool nontrivial_ = false;
    bool identified_ = false;
    std::uint64_t hash_ = 1469598103934665603ull;
    std::uint64_t choiceHash_ = 1469598103934665603ull;
    std::set<std::string> labels_;
    std::string text_;
};

std::string quote(std::string_view s);

template<typename... Args>
std::string cat(const Args&... args)
{
    std::ostringstream s;
    s.precision(17);
    (s << ... << args);
    return s.str();
}

struct spec
{
    /// Property id.
    std::string id;
    /// How cases are made and what makes one non-trivial.
    std::string rule;
    /// Number of cases in each tier.
    long quick_cases;
    long thorough_cases;
    /// The property itself.
    std::function<void(test_case&)> run;
    /// A case that runs for longer than this many seconds is a hang.
    double hang_seconds = 60;
    /// In each replay, the number of attempts made to reproduce a failure (schedule-dependent properties).
    int attempts = 1;
    /// Failures with tags that begin like this are reported even if they cannot be reproduced
    /// (for schedule-dependent cases, where the observation itself is proof).
    std::vector<std::string> sound_tags;
    /// Runs once in every child process before the first case.
    std::function<void()> setup = nullptr;
    /// Number of worker processes to use (0 = default).
    int workers = 0;
};

/// The harness' main().
int main(int argc, char** argv, const spec& s);

/// Scratch directory for this worker, created and removed by the runner.
std::string scratch();

} // namespace pbt

#define PBT_STR2(x) #x
#define PBT_STR(x) PBT_STR2(x)
#define PBT_REQUIRE(tag, cond, ...) \
    do { \
        if (!(cond)) ::pbt::fail(tag, ::pbt::cat("not satisfied: " #cond "; ", ##__VA_ARGS__)); \
    } while (false)

#endif
