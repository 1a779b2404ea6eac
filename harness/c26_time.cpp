#include "pbt.hpp"

#include <cosim/time.hpp>

#include <cmath>
#include <limits>
#include <vector>

namespace
{
using cosim::duration;
using cosim::time_point;

constexpr double limit = 4.0e9; // seconds; well inside the representable range

/// Seconds, of all magnitudes, often near multiples of a nanosecond or of typical step sizes.
double gen_seconds(pbt::test_case& c, bool negative)
{
    double v = 0;
    switch (c.draw(6)) {
        case 0: v = static_cast<double>(c.range(0, 1000000)) / std::pow(10.0, c.irange(0, 6)); break;
        case 1: v = static_cast<double>(c.range(0, 4000000000LL)); break;
        case 2: v = static_cast<double>(c.range(0, 4000000000000000000LL)) / 1e9; break;
        case 3: v = static_cast<double>(c.range(0, 4000000000000LL)) * 1e-3; break;
        case 4: v = std::ldexp(static_cast<double>(c.range(0, (1LL << 53) - 1)), c.irange(-90, -22)); break;
        case 5: v = c.one_of<double>({0.0, 0.1, 0.01, 0.001, 1e-9, 1e-10, 1.0 / 3, 1e9, 4e9, 0.9999999999, 5e-324}); break;
        default: v = static_cast<double>(c.range(0, 1000)) * c.one_of<double>({0.1, 0.01, 0.05, 0.2, 1.0 / 60, 1.0 / 3, 0.7}); break;
    }
    for (int k = c.chance(30) ? c.irange(1, 3) : 0; k > 0; --k) v = std::nextafter(v, c.chance(50) ? 0.0 : limit);
    if (v > limit) v = limit;
    return negative && c.chance(35) ? -v : v;
}

std::int64_t gen_ticks(pbt::test_case& c)
{
    std::int64_t v = 0;
    switch (c.draw(3)) {
        case 0: v = c.range(0, 1000); break;
        case 1: v = c.range(0, 4000000000LL) * 1000000000LL; break;
        case 2: v = c.range(0, 4000000000000000000LL); break;
        default: v = c.range(0, 1LL << c.irange(1, 61));
    }
    return c.chance(35) ? -v : v;
}

/// The largest difference from the exact value that truncation and double precision explain.
long double tolerance(double seconds)
{
    return 1.0L + std::fabs(static_cast<long double>(seconds)) * 1e9L * std::ldexp(1.0L, -51);
}

void check_conversion(double d)
{
    const auto t = cosim::to_duration(d).count();
    const long double err = std::fabs(static_cast<long double>(t) - static_cast<long double>(d) * 1e9L);
    PBT_REQUIRE("accuracy", err <= tolerance(d), "to_duration(", d, ") is ", t, " ns, ", static_cast<double>(err), " ns off");
    const auto p = cosim::to_time_point(d).time_since_epoch().count();
    PBT_REQUIRE("time-point", p == t, "to_time_point(", d, ") is at ", p, " ns, but to_duration() gives ", t, " ns");
}

double ulp(double v)
{
    v = std::fabs(v);
    return std::nextafter(v, std::numeric_limits<double>::infinity()) - v;
}

void run(pbt::test_case& c)
{
    // seconds -> ticks
    const double a = gen_seconds(c, true), b = gen_seconds(c, true);
    c.note(pbt::cat("a = ", a, ", b = ", b));
    check_conversion(a);
    const double lo = std::min(a, b), hi = std::max(a, b);
    PBT_REQUIRE("order", cosim::to_duration(lo) <= cosim::to_duration(hi), "to_duration(", lo, ") > to_duration(", hi, ")");
    const double next = std::nextafter(a, limit * 2);
    PBT_REQUIRE("order", cosim::to_duration(a) <= cosim::to_duration(next), "to_duration(", a, ") > to_duration() of the next larger number");
    if (hi - lo > 2e-9 && (hi - lo) * 1e9 > 4 * static_cast<double>(tolerance(std::max(std::fabs(lo), std::fabs(hi))))) {
        PBT_REQUIRE("order", cosim::to_duration(lo) < cosim::to_duration(hi), "to_duration(", lo, ") is not below to_duration(", hi, ")");
    }
    if (a == std::floor(a)) {
        const auto n = static_cast<std::int64_t>(a);
        PBT_REQUIRE("whole-seconds", cosim::to_duration(a).count() == n * 1000000000LL, "to_duration(", a, ") is ", cosim::to_duration(a).count(), " ns");
        c.label("whole seconds");
    }

    // durations with a start time
    const double start = gen_seconds(c, true);
    const double d = gen_seconds(c, true);
    if (std::fabs(start + d) <= limit) {
        const auto got = cosim::to_time_point(start) + cosim::to_duration(d, start);
        const auto want = cosim::to_time_point(start + d);
        PBT_REQUIRE("addition", got == want, "to_time_point(", start, ") + to_duration(", d, ", ", start, ") is at ", got.time_since_epoch().count(), " ns, but to_time_point(", start, " + ", d, ") is at ", want.time_since_epoch().count(), " ns");
        const long double err = std::fabs(static_cast<long double>(cosim::to_duration(d, start).count()) - static_cast<long double>(d) * 1e9L);
        PBT_REQUIRE("duration-accuracy", err <= tolerance(start) + tolerance(start + d) + ulp(start + d) * 1e9L, "to_duration(", d, ", ", start, ") is ", static_cast<double>(err), " ns off");
    }
    // step boundaries computed by counting and by adding
    {
        const double h = c.one_of<double>({0.1, 0.01, 0.001, 0.05, 0.2, 1.0 / 3, 1.0 / 60, 1e-6, 1e-9});
        const double t0 = gen_seconds(c, true) / 4;
        auto t = cosim::to_time_point(t0);
        double td = t0;
        for (int k = 0; k < 10; ++k) {
            t += cosim::to_duration(h, td);
            td += h;
            PBT_REQUIRE("step-boundaries", t == cosim::to_time_point(td), "from ", t0, ", ", k + 1, " steps of ", h, ": ", t.time_since_epoch().count(), " ns, but to_time_point(", td, ") is at ", cosim::to_time_point(td).time_since_epoch().count(), " ns");
        }
    }

    // ticks -> seconds
    const auto x = gen_ticks(c), y = gen_ticks(c);
    c.note(pbt::cat("x = ", x, " ns, y = ", y, " ns"));
    const time_point tx{duration(x)}, ty{duration(y)};
    const double dx = cosim::to_double_time_point(tx), dy = cosim::to_double_time_point(ty);
    const long double exact = static_cast<long double>(x) / 1e9L;
    PBT_REQUIRE("double-accuracy", std::fabs(static_cast<long double>(dx) - exact) <= 2 * static_cast<long double>(ulp(dx)), "to_double_time_point(", x, " ns) is ", dx);
    PBT_REQUIRE("double-order", x <= y ? dx <= dy : dx >= dy, "to_double_time_point() does not preserve the order of ", x, " ns and ", y, " ns");
    const auto back = cosim::to_time_point(dx).time_since_epoch().count();
    PBT_REQUIRE("double-round-trip", static_cast<long double>(std::llabs(back - x)) <= tolerance(dx) + 2e9L * ulp(dx), x, " ns comes back from a double as ", back, " ns");
    // durations
    {
        const auto z = gen_ticks(c) / 2;
        const time_point s{duration(x / 2)};
        const double sum = cosim::to_double_time_point(s) + cosim::to_double_duration(duration(z), s);
        const double want = cosim::to_double_time_point(s + duration(z));
        const double tol = std::max(ulp(want), ulp(cosim::to_double_time_point(s)));
        PBT_REQUIRE("double-addition", std::fabs(sum - want) <= tol, "to_double_time_point(", x / 2, " ns) + to_double_duration(", z, " ns) is ", sum, ", expected ", want);
    }
    if (a != 0 && start != 0 && d != 0 && x != 0) c.nontrivial();
}
} // namespace

int main(int argc, char** argv)
{
    pbt::spec s;
    s.id = "C26";
    s.rule = "seconds and ticks of all magnitudes within +/- 4e9 s (decimal fractions, multiples of typical steps, neighbouring doubles), converted both ways and compared with extended-precision arithmetic, with each other and with sums; non-trivial: none of the numbers is zero";
    s.quick_cases = 2000000;
    s.thorough_cases = 60000000;
    s.run = run;
    return pbt::main(argc, argv, s);
}
