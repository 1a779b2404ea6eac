#include "sim.hpp"

#include <cosim/exception.hpp>

#include <boost/log/core.hpp>

#include <algorithm>
#include <cmath>
#include <numeric>
#include <thread>

namespace sim
{
namespace
{
std::mutex reportMutex;
std::vector<std::pair<std::string, std::string>> reports;
std::atomic<std::int64_t> seqCounter{0};
} // namespace

std::int64_t next_seq() { return ++seqCounter; }

void report(const std::string& tag, const std::string& msg)
{
    std::lock_guard<std::mutex> l(reportMutex);
    if (reports.size() < 20) reports.emplace_back(tag, msg);
}

void check_reports()
{
    std::string tag, all;
    {
        std::lock_guard<std::mutex> l(reportMutex);
        if (reports.empty()) return;
        tag = reports.front().first;
        for (auto& r : reports) all += r.first + ": " + r.second + "\n";
        reports.clear();
    }
    pbt::fail(tag, all);
}

void clear_reports()
{
    std::lock_guard<std::mutex> l(reportMutex);
    reports.clear();
}

void setup_process() { boost::log::core::get()->set_logging_enabled(false); }

std::string show(const value& v)
{
    if (auto d = std::get_if<double>(&v)) return pbt::cat(*d);
    if (auto i = std::get_if<int>(&v)) return pbt::cat("i", *i);
    if (auto b = std::get_if<bool>(&v)) return *b ? "true" : "false";
    return pbt::quote(std::get<std::string>(v));
}
std::string show(time_point t) { return std::to_string(t.time_since_epoch().count()) + "ns"; }

variable_type type_of(const value& v) { return static_cast<variable_type>(v.index()); }

value default_value(variable_type t)
{
    switch (t) {
        case variable_type::real: return 0.0;
        case variable_type::integer: return 0;
        case variable_type::boolean: return false;
        default: return std::string();
    }
}

std::uint64_t mix(std::uint64_t h, std::uint64_t v)
{
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h ^= h >> 31;
    h *= 0xbf58476d1ce4e5b9ull;
    h ^= h >> 29;
    return h;
}
std::uint64_t mix(std::uint64_t h, const value& v)
{
    if (auto d = std::get_if<double>(&v)) {
        double x = *d == 0 ? 0.0 : *d; // no distinction between the zeros
        std::uint64_t u;
        std::memcpy(&u, &x, 8);
        return mix(h, u);
    }
    if (auto i = std::get_if<int>(&v)) return mix(h, static_cast<std::uint64_t>(*i) + 7);
    if (auto b = std::get_if<bool>(&v)) return mix(h, static_cast<std::uint64_t>(*b) + 77);
    for (unsigned char ch : std::get<std::string>(v)) h = mix(h, static_cast<std::uint64_t>(ch));
    return mix(h, static_cast<std::uint64_t>(999));
}

value derive(std::uint64_t h, variable_type t)
{
    h = mix(h, static_cast<std::uint64_t>(t));
    switch (t) {
        case variable_type::real:
            // sums and products of a few of these are exact
            if (h % 19 == 0) return (static_cast<int>((h >> 20) % (1u << 31)) - (1 << 30)) / 16.0;
            return (static_cast<int>(h % 2001) - 1000) / 16.0;
        case variable_type::integer: return static_cast<int>(h % 2001) - 1000;
        case variable_type::boolean: return (h & 1) != 0;
        default: {
            if (h % 29 == 0) return std::string();
            char b[40];
            std::snprintf(b, sizeof b, "s%llx", static_cast<unsigned long long>(h % 65536));
            std::string r = b;
            if (h % 11 == 0) r += " a longer string, beyond the small buffer";
            if (h % 13 == 0) r += ",\"q\"";
            if (h % 97 == 0) r += "\nnext";
            if (h % 89 == 0) r += "\r";
            if (h % 31 == 0) r = "\"" + r;
            if (h % 53 == 0) r += std::string(1 + h % 5000, 'L');
            return r;
        }
    }
}

value gen_value(pbt::test_case& c, variable_type t)
{
    switch (t) {
        case variable_type::real:
            if (c.chance(8)) return c.irange(-(1 << 30), 1 << 30) / 16.0;
            return c.irange(0, 1600) / 16.0 - (c.chance(40) ? 50 : 0);
        case variable_type::integer: return c.irange(0, 1000) - (c.chance(40) ? 500 : 0);
        case variable_type::boolean: return c.chance(50);
        default: return c.ascii(6, "abcXYZ 01");
    }
}

// --- slaves --------------------------------------------------------------

int slave_def::find(variable_type t, cosim::value_reference r) const
{
    for (int i = 0; i < var_count(); ++i) {
        if (var(i).type == t && var(i).reference == r) return i;
    }
    return -1;
}

std::vector<int> slave_def::vars(std::initializer_list<variable_causality> cs) const
{
    std::vector<int> r;
    for (int i = 0; i < var_count(); ++i) {
        if (std::find(cs.begin(), cs.end(), var(i).causality) != cs.end()) r.push_back(i);
    }
    return r;
}

static bool is_in(variable_causality c) { return c == variable_causality::input || c == variable_causality::parameter; }

core::core(const slave_def* def)
    : def_(def)
    , state_(mix(def->salt, std::uint64_t(1)))
{
    for (const auto& v : def->md.variables) values_.push_back(v.start ? *v.start : default_value(v.type));
    update();
}

void core::update()
{
    if (started_ || !def_->feedthrough) return;
    std::uint64_t h = def_->salt;
    for (int i = 0; i < def_->var_count(); ++i) {
        if (is_in(def_->var(i).causality)) h = mix(h, values_[i]);
    }
    for (int i = 0; i < def_->var_count(); ++i) {
        if (!is_in(def_->var(i).causality)) values_[i] = derive(mix(h, std::uint64_t(i)), def_->var(i).type);
    }
}

void core::set(int i, const value& v)
{
    values_[i] = v;
    update();
}

void core::start()
{
    started_ = true;
    if (def_->changeOnStart) {
        for (int i = 0; i < def_->var_count(); ++i) {
            if (!is_in(def_->var(i).causality)) values_[i] = derive(mix(state_, std::uint64_t(i)), def_->var(i).type);
        }
    }
}

void core::step(time_point t, duration dt)
{
    state_ = mix(state_, static_cast<std::uint64_t>(t.time_since_epoch().count()));
    state_ = mix(state_, static_cast<std::uint64_t>(dt.count()));
    for (int i = 0; i < def_->var_count(); ++i) {
        if (is_in(def_->var(i).causality)) state_ = mix(state_, values_[i]);
    }
    for (int i = 0; i < def_->var_count(); ++i) {
        if (!is_in(def_->var(i).causality)) values_[i] = derive(mix(state_, std::uint64_t(i)), def_->var(i).type);
    }
}

const char* to_string(call c)
{
    switch (c) {
        case call::setup: return "setup";
        case call::set: return "set";
        case call::get: return "get";
        case call::start: return "start_simulation";
        case call::step: return "do_step";
        default: return "end_simulation";
    }
}

struct rec_slave::busy_guard
{
    busy_guard(const rec_slave* s, call c)
        : s_(s)
    {
        if (s->busy_.exchange(true)) report("concurrent-calls", s->def_->name + ": " + to_string(c) + " while another call was in progress");
        if (s->failed_) report("call-after-failure", s->def_->name + ": " + to_string(c) + " after an earlier failure");
    }
    ~busy_guard() { s_->busy_ = false; }
    const rec_slave* s_;
};

rec_slave::rec_slave(const slave_def* def)
    : def_(def)
    , core_(def)
{
}

void rec_slave::delay() const
{
    if (jitter_ <= 0) return;
    jitterSeed_ = mix(jitterSeed_, std::uint64_t(3));
    const auto n = static_cast<int>(jitterSeed_ % (jitter_ + 1));
    if (n % 3 == 0) {
        std::this_thread::yield();
    } else {
        std::this_thread::sleep_for(std::chrono::microseconds(n));
    }
}

fault_kind rec_slave::check_fault(call c, variable_type t) const
{
    const int n = counts_[{static_cast<int>(c), static_cast<int>(t)}]++;
    for (const auto& f : faults_) {
        if (f.where != c || f.occurrence != n) continue;
        if ((c == call::set || c == call::get) && f.type != t) continue;
        switch (f.kind) {
            case fault_kind::throw_runtime: failed_ = true; throw std::runtime_error(f.text);
            case fault_kind::throw_logic: failed_ = true; throw std::out_of_range(f.text);
            case fault_kind::throw_error: failed_ = true; throw cosim::error(make_error_code(cosim::errc::model_error), f.text);
            default: return f.kind;
        }
    }
    return fault_kind::none;
}

void rec_slave::setup(time_point startTime, std::optional<time_point> stopTime, std::optional<double> relativeTolerance)
{
    busy_guard g(this, call::setup);
    event e{call::setup, startTime};
    e.seqBegin = next_seq();
    e.stop = stopTime;
    e.tolerance = relativeTolerance;
    check_fault(call::setup, {});
    delay();
    e.seqEnd = next_seq();
    log_.push_back(e);
}

void rec_slave::start_simulation()
{
    busy_guard g(this, call::start);
    event e{call::start};
    e.seqBegin = next_seq();
    e.snapshot = core_.values();
    check_fault(call::start, {});
    delay();
    core_.start();
    e.seqEnd = next_seq();
    log_.push_back(e);
}

void rec_slave::end_simulation()
{
    busy_guard g(this, call::end);
    event e{call::end};
    e.seqBegin = e.seqEnd = next_seq();
    log_.push_back(e);
}

cosim::step_result rec_slave::do_step(time_point currentT, duration deltaT)
{
    busy_guard g(this, call::step);
    event e{call::step, currentT, deltaT};
    e.seqBegin = next_seq();
    e.snapshot = core_.values();
    if (onStep) onStep();
    delay();
    const auto f = check_fault(call::step, {});
    if (f == fault_kind::result_failed || f == fault_kind::result_canceled) {
        log_.push_back(e);
        return f == fault_kind::result_failed ? cosim::step_result::failed : cosim::step_result::canceled;
    }
    core_.step(currentT, deltaT);
    delay();
    e.seqEnd = next_seq();
    log_.push_back(std::move(e));
    ++stepsDone_;
    return cosim::step_result::complete;
}

template<typename T>
void rec_slave::get_impl(variable_type t, gsl::span<const cosim::value_reference> variables, gsl::span<T> values) const
{
    busy_guard g(this, call::get);
    check_fault(call::get, t);
    if (variables.size() != values.size()) report("size-mismatch", def_->name + ": get with different numbers of references and values");
    for (std::size_t i = 0; i < static_cast<std::size_t>(variables.size()); ++i) {
        const int v = def_->find(t, variables[i]);
        if (v < 0) {
            report("unknown-variable", pbt::cat(def_->name, ": get of unknown ", t, " variable ", variables[i]));
            continue;
        }
        values[i] = std::get<T>(core_.get(v));
    }
    if (logAccess && variables.size() > 0) {
        event e{call::get};
        e.seqBegin = e.seqEnd = next_seq();
        log_.push_back(e);
    }
}

template<typename T>
void rec_slave::set_impl(variable_type t, gsl::span<const cosim::value_reference> variables, gsl::span<const T> values)
{
    busy_guard g(this, call::set);
    const auto f = check_fault(call::set, t);
    if (variables.size() != values.size()) report("size-mismatch", def_->name + ": set with different numbers of references and values");
    event e{call::set};
    e.seqBegin = e.seqEnd = next_seq();
    for (std::size_t i = 0; i < static_cast<std::size_t>(variables.size()); ++i) {
        const int v = def_->find(t, variables[i]);
        if (v < 0) {
            report("unknown-variable", pbt::cat(def_->name, ": set of unknown ", t, " variable ", variables[i]));
            continue;
        }
        core_.set(v, value(T(values[i])));
        e.sets.emplace_back(v, value(T(values[i])));
    }
    if (logAccess && !e.sets.empty()) log_.push_back(e);
    if (f == fault_kind::bad_value) throw cosim::nonfatal_bad_value("value not quite right");
}

void rec_slave::get_real_variables(gsl::span<const cosim::value_reference> variables, gsl::span<double> values) const { get_impl(variable_type::real, variables, values); }
void rec_slave::get_integer_variables(gsl::span<const cosim::value_reference> variables, gsl::span<int> values) const { get_impl(variable_type::integer, variables, values); }
void rec_slave::get_boolean_variables(gsl::span<const cosim::value_reference> variables, gsl::span<bool> values) const { get_impl(variable_type::boolean, variables, values); }
void rec_slave::get_string_variables(gsl::span<const cosim::value_reference> variables, gsl::span<std::string> values) const { get_impl(variable_type::string, variables, values); }
void rec_slave::set_real_variables(gsl::span<const cosim::value_reference> variables, gsl::span<const double> values) { set_impl(variable_type::real, variables, values); }
void rec_slave::set_integer_variables(gsl::span<const cosim::value_reference> variables, gsl::span<const int> values) { set_impl(variable_type::integer, variables, values); }
void rec_slave::set_boolean_variables(gsl::span<const cosim::value_reference> variables, gsl::span<const bool> values) { set_impl(variable_type::boolean, variables, values); }
void rec_slave::set_string_variables(gsl::span<const cosim::value_reference> variables, gsl::span<const std::string> values) { set_impl(variable_type::string, variables, values); }

std::vector<event> rec_slave::steps() const
{
    std::vector<event> r;
    for (auto& e : log_) {
        if (e.kind == call::step) r.push_back(e);
    }
    return r;
}

// --- functions ---------------------------------------------------------------

namespace
{
using placeholder = cosim::function_parameter_placeholder;

class custom_function : public cosim::function
{
public:
    explicit custom_function(const fun_def& d)
        : def_(d)
    {
        for (auto& io : def_.ios()) (io.input ? in_ : out_)[io.ref] = default_value(io.type);
    }
    cosim::function_description description() const override { return def_.custom_description; }
    void set_real(const cosim::function_io_reference& r, double v) override { set(r, v); }
    void set_integer(const cosim::function_io_reference& r, int v) override { set(r, v); }
    void set_boolean(const cosim::function_io_reference& r, bool v) override { set(r, v); }
    void set_string(const cosim::function_io_reference& r, std::string_view v) override { set(r, std::string(v)); }
    double get_real(const cosim::function_io_reference& r) const override { return get<double>(r); }
    int get_integer(const cosim::function_io_reference& r) const override { return get<int>(r); }
    bool get_boolean(const cosim::function_io_reference& r) const override { return get<bool>(r); }
    std::string_view get_string(const cosim::function_io_reference& r) const override { return get<std::string>(r); }
    void calculate() override { out_ = def_.compute(in_); }

private:
    void set(const cosim::function_io_reference& r, value v)
    {
        auto it = in_.find({r.group, r.group_instance, r.io, r.io_instance});
        if (it == in_.end() || it->second.index() != v.index()) {
            report("function-set", "a function variable that does not exist was set");
            return;
        }
        it->second = std::move(v);
    }
    template<typename T>
    const T& get(const cosim::function_io_reference& r) const
    {
        auto it = out_.find({r.group, r.group_instance, r.io, r.io_instance});
        if (it == out_.end() || !std::holds_alternative<T>(it->second)) {
            report("function-get", "a function variable that does not exist was read");
            static T t;
            return t;
        }
        return std::get<T>(it->second);
    }
    fun_def def_;
    std::map<io_ref, value> in_, out_;
};
} // namespace

std::vector<fun_io> fun_def::ios() const
{
    std::vector<fun_io> r;
    const auto d = description();
    for (int g = 0; g < static_cast<int>(d.io_groups.size()); ++g) {
        for (int gi = 0; gi < std::get<int>(d.io_groups[g].count); ++gi) {
            const auto& ios = d.io_groups[g].ios;
            for (int i = 0; i < static_cast<int>(ios.size()); ++i) {
                for (int ii = 0; ii < std::get<int>(ios[i].count); ++ii) {
                    r.push_back({{g, gi, i, ii}, std::get<variable_type>(ios[i].type), ios[i].causality == variable_causality::input});
                }
            }
        }
    }
    return r;
}

cosim::function_description fun_def::description() const
{
    using cosim::function_io_description;
    using cosim::function_io_group_description;
    cosim::function_description d;
    if (kind == custom) return custom_description;
    const auto t = kind == linear ? variable_type::real : numericType;
    const int n = kind == linear ? 1 : inputCount;
    const int dim = kind == linear ? 1 : dimension;
    d.io_groups.push_back(function_io_group_description{"in", n, {function_io_description{"", t, variable_causality::input, dim}}});
    d.io_groups.push_back(function_io_group_description{"out", 1, {function_io_description{"", t, variable_causality::output, dim}}});
    return d;
}

std::map<io_ref, value> fun_def::compute(const std::map<io_ref, value>& in) const
{
    std::map<io_ref, value> out;
    if (kind == linear) {
        out[{1, 0, 0, 0}] = offset + factor * std::get<double>(in.at({0, 0, 0, 0}));
    } else if (kind == vector_sum) {
        for (int d = 0; d < dimension; ++d) {
            if (numericType == variable_type::real) {
                double s = 0;
                for (int i = 0; i < inputCount; ++i) s += std::get<double>(in.at({0, i, 0, d}));
                out[{1, 0, 0, d}] = s;
            } else {
                int s = 0;
                for (int i = 0; i < inputCount; ++i) s += std::get<int>(in.at({0, i, 0, d}));
                out[{1, 0, 0, d}] = s;
            }
        }
    } else {
        std::uint64_t h = salt;
        for (auto& [r, v] : in) h = mix(h, v);
        std::uint64_t n = 0;
        for (auto& io : ios()) {
            if (!io.input) out[io.ref] = derive(mix(h, ++n), io.type);
        }
    }
    return out;
}

std::string fun_def::text() const
{
    if (kind == linear) return pbt::cat("linear(offset=", offset, ", factor=", factor, ")");
    if (kind == vector_sum) return pbt::cat("vector_sum(", numericType, ", ", inputCount, " x ", dimension, ")");
    return pbt::cat("custom with ", ios().size(), " variables");
}

std::shared_ptr<cosim::function> make_function(const fun_def& d)
{
    if (d.kind == fun_def::linear) return std::make_shared<cosim::linear_transformation_function>(d.offset, d.factor);
    if (d.kind == fun_def::vector_sum) {
        if (d.numericType == variable_type::real) return std::make_shared<cosim::vector_sum_function<double>>(d.inputCount, d.dimension);
        return std::make_shared<cosim::vector_sum_function<int>>(d.inputCount, d.dimension);
    }
    return std::make_shared<custom_function>(d);
}

// --- systems -------------------------------------------------------------------

std::string sysdef::text() const
{
    std::string r = pbt::cat("base step ", show(base), ", start ", show(start), ", worker threads ", threads ? std::to_string(*threads) : "default", "\n");
    for (std::size_t i = 0; i < slaves.size(); ++i) {
        const auto& d = *slaves[i];
        r += pbt::cat("slave ", i, " ", d.name, " hint ", show(d.hint), d.explicitFactor ? pbt::cat(" explicit factor ", d.explicitFactor) : "",
            d.feedthrough ? " feedthrough" : "", d.changeOnStart ? " changes-on-start" : "", ":");
        for (int v = 0; v < d.var_count(); ++v) {
            r += pbt::cat(" [", v, "]", d.var(v).name, ":", d.var(v).type, ":", d.var(v).causality, ":", d.var(v).reference,
                d.var(v).start ? "=" + show(*d.var(v).start) : "");
        }
        r += "\n";
    }
    for (std::size_t i = 0; i < funs.size(); ++i) r += pbt::cat("function ", i, " ", funs[i]->text(), "\n");
    auto io = [](const fun_io& x) { return pbt::cat("(", x.ref.group, ",", x.ref.groupInstance, ",", x.ref.io, ",", x.ref.ioInstance, ")"); };
    for (auto& c : ss) r += pbt::cat("connect s", c.src, "[", c.srcVar, "] -> s", c.tgt, "[", c.tgtVar, "]\n");
    for (auto& c : sf) r += pbt::cat("connect s", c.src, "[", c.srcVar, "] -> f", c.fun, io(c.io), "\n");
    for (auto& c : fs) r += pbt::cat("connect f", c.fun, io(c.io), " -> s", c.tgt, "[", c.tgtVar, "]\n");
    for (auto& v : initial) r += pbt::cat("initial s", v.sim, "[", v.var, "] = ", show(v.val), "\n");
    return r;
}

bool sysdef::input_used(int sim, int var) const
{
    for (auto& c : ss) {
        if (c.tgt == sim && c.tgtVar == var) return true;
    }
    for (auto& c : fs) {
        if (c.tgt == sim && c.tgtVar == var) return true;
    }
    return false;
}

bool sysdef::io_used(int fun, const io_ref& r) const
{
    for (auto& c : sf) {
        if (c.fun == fun && !(c.io.ref < r) && !(r < c.io.ref)) return true;
    }
    return false;
}

bool sysdef::has_algebraic_loop() const
{
    // Edges between feedthrough slaves and functions
    const int n = static_cast<int>(slaves.size()), m = static_cast<int>(funs.size());
    std::vector<std::vector<int>> adj(n + m);
    for (auto& c : ss) {
        if (slaves[c.src]->feedthrough && slaves[c.tgt]->feedthrough) adj[c.src].push_back(c.tgt);
    }
    for (auto& c : sf) {
        if (slaves[c.src]->feedthrough) adj[c.src].push_back(n + c.fun);
    }
    for (auto& c : fs) {
        if (slaves[c.tgt]->feedthrough) adj[n + c.fun].push_back(c.tgt);
    }
    std::vector<int> mark(n + m, 0);
    std::function<bool(int)> dfs = [&](int v) {
        mark[v] = 1;
        for (int w : adj[v]) {
            if (mark[w] == 1 || (mark[w] == 0 && dfs(w))) return true;
        }
        mark[v] = 2;
        return false;
    };
    for (int v = 0; v < n + m; ++v) {
        if (mark[v] == 0 && dfs(v)) return true;
    }
    return false;
}

std::shared_ptr<slave_def> gen_slave(pbt::test_case& c, const std::string& name, duration base, const gen_options& o)
{
    auto d = std::make_shared<slave_def>();
    d->name = name;
    d->md.name = c.chance(30) ? "model" : "model_" + name; // not unique; the UUID is
    d->md.uuid = "uuid-" + name;
    d->md.description = "generated " + name;
    d->md.author = "nobody";
    d->md.version = "1." + name;
    d->salt = c.draw(1000000);
    d->feedthrough = o.feedthrough && c.chance(40);
    d->changeOnStart = c.chance(30);
    std::map<variable_type, std::set<cosim::value_reference>> used;
    // now and then a lot of variables
    const bool large = c.chance(2);
    const int maxVars = large ? 6 * o.maxVars : o.maxVars;
    c.repeat(1, maxVars, large ? maxVars / 2.0 : 1 + c.sized(1, maxVars) / 2.0, [&](int i) {
        cosim::variable_description v;
        v.type = o.extraReal && c.chance(o.extraReal) ? variable_type::real : static_cast<variable_type>(c.weighted({40, 22, 18, 20}));
        const int k = c.weighted({40, 40, 10, o.localsAndCalculated ? 6 : 0, o.localsAndCalculated ? 6 : 0});
        v.causality = k == 0 ? variable_causality::output : k == 1 ? variable_causality::input
                                                        : k == 2   ? variable_causality::parameter
                                                        : k == 3   ? variable_causality::local
                                                                   : variable_causality::calculated_parameter;
        v.variability = v.causality == variable_causality::parameter || v.causality == variable_causality::calculated_parameter
            ? variable_variability::tunable
            : v.type == variable_type::real ? variable_variability::continuous
                                            : variable_variability::discrete;
        // References are only unique within a type.
        cosim::value_reference r = static_cast<cosim::value_reference>(c.draw(7));
        if (c.chance(3)) r = 4294967295u - r;
        while (used[v.type].count(r)) ++r;
        used[v.type].insert(r);
        v.reference = r;
        v.name = pbt::cat("v", i);
        if (c.chance(40)) v.start = gen_value(c, v.type);
        d->md.variables.push_back(v);
    });
    switch (c.weighted({30, 30, 30, 10})) {
        case 0: break;
        case 1: d->hint = base * c.irange(1, o.maxFactor); break;
        case 2:
            d->hint = base * c.irange(1, o.maxFactor);
            if (base.count() > 1) d->hint += duration(c.range(0, base.count() - 1));
            break;
        case 3:
            d->hint = base.count() > 1 ? duration(c.range(1, base.count() - 1)) : base;
            break;
    }
    if (c.chance(15)) d->explicitFactor = c.irange(1, o.maxFactor);
    if (c.chance(2)) {
        // so large that it isn't stepped a second time
        static const int huge[] = {99991, 65535, 65537, 1 << 30, 3 << 29, 2147483647, 1000003};
        if (c.chance(50)) {
            d->explicitFactor = huge[c.draw(6)];
        } else {
            d->explicitFactor = 0;
            d->hint = duration(c.range(1000000000000, 1000000000000000000));
        }
    }
    return d;
}

std::shared_ptr<fun_def> gen_function(pbt::test_case& c, const gen_options& o)
{
    auto f = std::make_shared<fun_def>();
    f->salt = c.draw(100000);
    switch (c.weighted({40, 40, o.customFunctions ? 20 : 0})) {
        case 0:
            f->kind = fun_def::linear;
            f->offset = c.irange(-64, 64) / 8.0;
            f->factor = c.irange(-32, 32) / 8.0;
            break;
        case 1:
            f->kind = fun_def::vector_sum;
            f->numericType = c.chance(40) ? variable_type::integer : variable_type::real;
            f->inputCount = c.irange(1, 3);
            f->dimension = c.irange(1, 3);
            break;
        default: {
            f->kind = fun_def::custom;
            const int groups = c.irange(1, 3);
            for (int g = 0; g < groups; ++g) {
                cosim::function_io_group_description gd;
                gd.name = pbt::cat("g", g);
                gd.count = c.irange(1, 2);
                const int n = c.irange(1, 3);
                for (int i = 0; i < n; ++i) {
                    gd.ios.push_back(cosim::function_io_description{pbt::cat("x", i), static_cast<variable_type>(c.draw(3)),
                        c.chance(50) ? variable_causality::input : variable_causality::output, c.irange(1, 2)});
                }
                f->custom_description.io_groups.push_back(gd);
            }
        }
    }
    return f;
}

void gen_connections(pbt::test_case& c, sysdef& s, const gen_options& o)
{
    for (int t = 0; t < static_cast<int>(s.slaves.size()); ++t) {
        for (int tv : s.slaves[t]->vars({variable_causality::input})) {
            if (!c.chance(o.connectionPercent)) continue;
            const auto type = s.slaves[t]->var(tv).type;
            std::vector<std::pair<int, int>> simSources;
            std::vector<std::pair<int, fun_io>> funSources;
            for (int i = 0; i < static_cast<int>(s.slaves.size()); ++i) {
                for (int v : s.slaves[i]->vars({variable_causality::output, variable_causality::calculated_parameter})) {
                    if (s.slaves[i]->var(v).type == type) simSources.emplace_back(i, v);
                }
            }
            for (int i = 0; i < static_cast<int>(s.funs.size()); ++i) {
                for (auto& io : s.funs[i]->ios()) {
                    if (!io.input && io.type == type) funSources.emplace_back(i, io);
                }
            }
            const bool fun = !funSources.empty() && (simSources.empty() || c.chance(50));
            if (fun) {
                auto& [f, io] = c.pick(funSources);
                s.fs.push_back({f, io, t, tv});
                if (s.has_algebraic_loop()) s.fs.pop_back();
            } else if (!simSources.empty()) {
                auto& [i, v] = c.pick(simSources);
                s.ss.push_back({i, v, t, tv});
                if (s.has_algebraic_loop()) s.ss.pop_back();
            }
        }
    }
    for (int f = 0; f < static_cast<int>(s.funs.size()); ++f) {
        for (auto& io : s.funs[f]->ios()) {
            if (!io.input || !c.chance(80)) continue;
            std::vector<std::pair<int, int>> sources;
            for (int i = 0; i < static_cast<int>(s.slaves.size()); ++i) {
                for (int v : s.slaves[i]->vars({variable_causality::output, variable_causality::calculated_parameter})) {
                    if (s.slaves[i]->var(v).type == io.type) sources.emplace_back(i, v);
                }
            }
            if (sources.empty()) continue;
            auto& [i, v] = c.pick(sources);
            s.sf.push_back({i, v, f, io});
            if (s.has_algebraic_loop()) s.sf.pop_back();
        }
    }
    c.shuffle(s.ss);
    c.shuffle(s.sf);
    c.shuffle(s.fs);
}

sysdef gen_system(pbt::test_case& c, const gen_options& o)
{
    sysdef s;
    static const std::int64_t bases[] = {1000000000, 100000000, 1, 10, 1000, 1000000, 333333333, 7, 2500000000};
    s.base = duration(c.chance(30) ? c.range(1, 3000000000ll) : bases[c.draw(8)]);
    static const std::int64_t starts[] = {0, 0, 0, 1000000000, -1000000000, 1, 3600000000000, 1000000000000000000};
    s.start = at(c.chance(20) ? c.range(0, 4000000000ll) - 2000000000 : starts[c.draw(7)]);
    s.threads = o.threadCounts[c.draw(o.threadCounts.size() - 1)];
    // ...or a lot of slaves
    const bool large = c.chance(2);
    const int maxSlaves = large ? 3 * o.maxSlaves : o.maxSlaves;
    c.repeat(o.minSlaves, maxSlaves, large ? maxSlaves / 1.5 : o.minSlaves + c.sized(1, maxSlaves) / 2.0, [&](int i) {
        s.slaves.push_back(gen_slave(c, pbt::cat(std::string(1, static_cast<char>('a' + (i * 7) % 26)), i), s.base, o));
    });
    if (o.maxFunctions > 0) {
        c.repeat(0, o.maxFunctions, 1.2, [&](int) { s.funs.push_back(gen_function(c, o)); });
    }
    gen_connections(c, s, o);
    if (o.initialValues) {
        c.repeat(0, 8, 2, [&](int) {
            const int i = static_cast<int>(c.draw(s.slaves.size() - 1));
            const auto vs = s.slaves[i]->vars({variable_causality::input, variable_causality::parameter});
            if (vs.empty()) return;
            const int v = vs[c.draw(vs.size() - 1)];
            s.initial.push_back({i, v, gen_value(c, s.slaves[i]->var(v).type)});
        });
    }
    return s;
}

running build(const sysdef& s, bool connect)
{
    running r;
    r.algo = std::make_shared<cosim::fixed_step_algorithm>(s.base, s.threads);
    r.exe = std::make_unique<cosim::execution>(s.start, r.algo);
    for (std::size_t i = 0; i < s.slaves.size(); ++i) {
        r.slaves.push_back(std::make_shared<rec_slave>(s.slaves[i].get()));
        const auto idx = r.exe->add_slave(r.slaves.back(), s.slaves[i]->name, s.slaves[i]->hint);
        PBT_REQUIRE("slave-index", idx == static_cast<int>(i), "got ", idx);
        if (s.slaves[i]->explicitFactor) r.algo->set_stepsize_decimation_factor(idx, s.slaves[i]->explicitFactor);
    }
    for (std::size_t i = 0; i < s.funs.size(); ++i) {
        r.funs.push_back(make_function(*s.funs[i]));
        const auto idx = r.exe->add_function(r.funs.back());
        PBT_REQUIRE("function-index", idx == static_cast<int>(i), "got ", idx);
    }
    if (connect) {
        for (auto& c : s.ss) r.exe->connect_variables(s.vid(c.src, c.srcVar), s.vid(c.tgt, c.tgtVar));
        for (auto& c : s.sf) r.exe->connect_variables(s.vid(c.src, c.srcVar), s.fid(c.fun, c.io));
        for (auto& c : s.fs) r.exe->connect_variables(s.fid(c.fun, c.io), s.vid(c.tgt, c.tgtVar));
    }
    for (auto& v : s.initial) {
        const auto ref = s.slaves[v.sim]->var(v.var).reference;
        switch (type_of(v.val)) {
            case variable_type::real: r.exe->set_real_initial_value(v.sim, ref, std::get<double>(v.val)); break;
            case variable_type::integer: r.exe->set_integer_initial_value(v.sim, ref, std::get<int>(v.val)); break;
            case variable_type::boolean: r.exe->set_boolean_initial_value(v.sim, ref, std::get<bool>(v.val)); break;
            default: r.exe->set_string_initial_value(v.sim, ref, std::get<std::string>(v.val)); break;
        }
    }
    return r;
}

// --- model -----------------------------------------------------------------------

model::model(const sysdef& s)
    : ss(s.ss)
    , sf(s.sf)
    , fs(s.fs)
    , alive(s.slaves.size(), true)
    , s_(s)
    , t_(s.start)
{
    stepsOf.resize(s.slaves.size());
    written.resize(s.slaves.size());
    for (std::size_t i = 0; i < s.slaves.size(); ++i) {
        cores_.emplace_back(s.slaves[i].get());
        factor_.push_back(s.factor(static_cast<int>(i)));
        std::vector<value> l;
        for (auto& v : s.slaves[i]->md.variables) l.push_back(v.start ? *v.start : default_value(v.type));
        last_.push_back(l);
        published_.push_back(cores_.back().values());
    }
    pending_.resize(s.slaves.size());
    for (auto& f : s.funs) {
        std::map<io_ref, value> in, out;
        for (auto& io : f->ios()) (io.input ? in : out)[io.ref] = default_value(io.type);
        funIn_.push_back(in);
        funOut_.push_back(out);
    }
    for (auto& v : s.initial) set_value(v.sim, v.var, v.val);
}

void model::set_value(int sim, int var, const value& v)
{
    last_[sim][var] = v;
    pending_[sim].insert(var);
}

void model::set_input_modifier(int sim, int var, modifier m)
{
    pending_[sim].insert(var);
    if (m) {
        inMod_[{sim, var}] = std::move(m);
    } else {
        inMod_.erase({sim, var});
    }
}

void model::apply_sets(int sim, duration dt)
{
    for (auto& [k, m] : inMod_) {
        if (k.first == sim) pending_[sim].insert(k.second);
    }
    for (int v : pending_[sim]) {
        const auto it = inMod_.find({sim, v});
        cores_[sim].set(v, it == inMod_.end() ? last_[sim][v] : it->second(last_[sim][v], dt));
        written[sim].insert(v);
    }
    pending_[sim].clear();
}

void model::publish(int sim, duration dt)
{
    for (int v = 0; v < s_.slaves[sim]->var_count(); ++v) {
        const auto it = outMod.find({sim, v});
        published_[sim][v] = it == outMod.end() ? cores_[sim].get(v) : it->second(cores_[sim].get(v), dt);
    }
}

bool model::fun_due(int f) const
{
    for (auto& c : fs) {
        if (c.fun == f && k_ % factor_[c.tgt] != 0) return false;
    }
    return true;
}

void model::transfer()
{
    for (auto& c : ss) {
        if (k_ % factor_[c.src] == 0 && k_ % factor_[c.tgt] == 0) set_value(c.tgt, c.tgtVar, published_[c.src][c.srcVar]);
    }
    for (auto& c : sf) {
        if (k_ % factor_[c.src] == 0 && fun_due(c.fun)) funIn_[c.fun][c.io.ref] = published_[c.src][c.srcVar];
    }
    for (std::size_t f = 0; f < s_.funs.size(); ++f) {
        if (fun_due(static_cast<int>(f))) funOut_[f] = s_.funs[f]->compute(funIn_[f]);
    }
    for (auto& c : fs) {
        if (fun_due(c.fun)) set_value(c.tgt, c.tgtVar, funOut_[c.fun].at(c.io.ref));
    }
}

void model::initialize()
{
    for (std::size_t i = 0; i < cores_.size(); ++i) publish(static_cast<int>(i), duration(0));
    for (std::size_t n = 0; n < cores_.size() + s_.funs.size(); ++n) {
        for (std::size_t i = 0; i < cores_.size(); ++i) {
            if (!alive[i]) continue;
            apply_sets(static_cast<int>(i), duration(0));
            publish(static_cast<int>(i), duration(0));
        }
        transfer();
    }
    atStart.resize(cores_.size());
    for (std::size_t i = 0; i < cores_.size(); ++i) {
        if (!alive[i]) continue;
        apply_sets(static_cast<int>(i), duration(0));
        atStart[i] = cores_[i].values();
        cores_[i].start();
        publish(static_cast<int>(i), duration(0));
    }
    transfer();
    initialized_ = true;
}

void model::step()
{
    if (!initialized_) initialize();
    for (std::size_t i = 0; i < cores_.size(); ++i) {
        if (!alive[i] || k_ % factor_[i] != 0) continue;
        const auto dt = s_.base * factor_[i];
        apply_sets(static_cast<int>(i), dt);
        stepsOf[i].push_back({t_, dt, cores_[i].values()});
        cores_[i].step(t_, dt);
        publish(static_cast<int>(i), dt);
    }
    ++k_;
    t_ += s_.base;
    transfer();
}

std::vector<int> model::finished() const
{
    std::vector<int> r;
    for (std::size_t i = 0; i < cores_.size(); ++i) {
        if (is_finished(static_cast<int>(i))) r.push_back(static_cast<int>(i));
    }
    return r;
}

void compare_steps(const sysdef& s, const running& r, const model& m, const std::string& tag)
{
    for (std::size_t i = 0; i < s.slaves.size(); ++i) {
        const auto real = r.slaves[i]->steps();
        const auto& want = m.stepsOf[i];
        for (std::size_t k = 0; k < std::min(real.size(), want.size()); ++k) {
            PBT_REQUIRE(tag + "-time", real[k].t == want[k].t && real[k].dt == want[k].dt, s.slaves[i]->name, " step ", k, ": got t=", show(real[k].t), " dt=", show(real[k].dt),
                ", expected t=", show(want[k].t), " dt=", show(want[k].dt));
            for (int v = 0; v < s.slaves[i]->var_count(); ++v) {
                PBT_REQUIRE(tag + "-value", real[k].snapshot[v] == want[k].snapshot[v], s.slaves[i]->name, " step ", k, " variable [", v, "] ", s.slaves[i]->var(v).name, " (",
                    s.slaves[i]->var(v).causality, "): got ", show(real[k].snapshot[v]), ", expected ", show(want[k].snapshot[v]));
            }
        }
        PBT_REQUIRE(tag + "-count", real.size() == want.size(), s.slaves[i]->name, " took ", real.size(), " steps, expected ", want.size());
    }
}

// --- observers -----------------------------------------------------------------------

std::string show(const note& n)
{
    static const char* names[] = {"simulator_added", "simulator_removed", "variables_connected", "variable_disconnected", "simulation_initialized", "simulator_step_complete", "step_complete"};
    std::string r = pbt::cat(names[n.kind], " sim=", n.sim, " name=", n.name, " step=", n.stepNumber, " dt=", show(n.dt), " t=", show(n.t));
    if (n.kind == note::connected) r += pbt::cat(" ", n.a, "->", n.b);
    for (auto& v : n.values) r += " " + show(v);
    return r;
}

std::vector<value> read_all(cosim::observable* o)
{
    std::vector<value> r;
    for (const auto& v : o->model_description().variables) {
        switch (v.type) {
            case variable_type::real: r.emplace_back(o->get_real(v.reference)); break;
            case variable_type::integer: r.emplace_back(o->get_integer(v.reference)); break;
            case variable_type::boolean: r.emplace_back(o->get_boolean(v.reference)); break;
            default: r.emplace_back(std::string(o->get_string(v.reference))); break;
        }
    }
    return r;
}

void rec_observer::add(note n)
{
    if (onNote) onNote(n);
    log.push_back(std::move(n));
}

void rec_observer::simulator_added(cosim::simulator_index i, cosim::observable* o, time_point t)
{
    observables[i] = o;
    if (expose) {
        for (const auto& v : o->model_description().variables) o->expose_for_getting(v.type, v.reference);
    }
    note n{note::added};
    n.sim = i;
    n.name = o->name();
    n.t = t;
    add(n);
}
void rec_observer::simulator_removed(cosim::simulator_index i, time_point t)
{
    note n{note::removed};
    n.sim = i;
    n.t = t;
    add(n);
}
void rec_observer::variables_connected(cosim::variable_id output, cosim::variable_id input, time_point t)
{
    note n{note::connected};
    n.a = output;
    n.b = input;
    n.t = t;
    add(n);
}
void rec_observer::variable_disconnected(cosim::variable_id input, time_point t)
{
    note n{note::disconnected};
    n.b = input;
    n.t = t;
    add(n);
}
void rec_observer::simulation_initialized(cosim::step_number firstStep, time_point startTime)
{
    note n{note::initialized};
    n.stepNumber = firstStep;
    n.t = startTime;
    if (expose) {
        for (auto& [i, o] : observables) {
            for (auto& v : read_all(o)) n.values.push_back(v);
        }
    }
    add(n);
}
void rec_observer::step_complete(cosim::step_number lastStep, duration lastStepSize, time_point currentTime)
{
    note n{note::step};
    n.stepNumber = lastStep;
    n.dt = lastStepSize;
    n.t = currentTime;
    add(n);
}
void rec_observer::simulator_step_complete(cosim::simulator_index index, cosim::step_number lastStep, duration lastStepSize, time_point currentTime)
{
    note n{note::sim_step};
    n.sim = index;
    n.stepNumber = lastStep;
    n.dt = lastStepSize;
    n.t = currentTime;
    if (expose) n.values = read_all(observables.at(index));
    add(n);
}

} // namespace sim
