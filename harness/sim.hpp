// Generated co-simulations: slaves that record what happens to them, functions,
// and a reference interpreter for a whole system.
#ifndef SIM_HPP
#define SIM_HPP

#include "pbt.hpp"

#include <cosim/algorithm.hpp>
#include <cosim/algorithm/fixed_step_algorithm.hpp>
#include <cosim/execution.hpp>
#include <cosim/function/function.hpp>
#include <cosim/function/linear_transformation.hpp>
#include <cosim/function/vector_sum.hpp>
#include <cosim/manipulator.hpp>
#include <cosim/model_description.hpp>
#include <cosim/observer/observer.hpp>
#include <cosim/slave.hpp>
#include <cosim/time.hpp>

#include <atomic>
#include <map>
#include <memory>
#include <mutex>
#include <optional>
#include <string>
#include <vector>

namespace sim
{

using value = cosim::scalar_value;
using cosim::duration;
using cosim::time_point;
using cosim::variable_causality;
using cosim::variable_type;
using cosim::variable_variability;

std::string show(const value& v);
std::string show(time_point t);
inline std::string show(duration d) { return std::to_string(d.count()) + "ns"; }
variable_type type_of(const value& v);
value default_value(variable_type t);
value derive(std::uint64_t h, variable_type t);
std::uint64_t mix(std::uint64_t h, std::uint64_t v);
std::uint64_t mix(std::uint64_t h, const value& v);
value gen_value(pbt::test_case& c, variable_type t);
inline time_point at(std::int64_t ns) { return time_point(duration(ns)); }

/// Problems noticed inside callbacks, where no exception may be thrown.
void report(const std::string& tag, const std::string& msg);
/// Fails the test case if anything has been reported.
void check_reports();
void clear_reports();

/// To be called once per process: silences logging.
void setup_process();

// --- slaves ------------------------------------------------------------------

struct slave_def
{
    std::string name;
    cosim::model_description md;
    std::uint64_t salt = 0;
    /// Whether outputs depend directly on inputs during initialisation.
    bool feedthrough = false;
    /// Whether outputs get new values in start_simulation().
    bool changeOnStart = false;
    duration hint = duration::zero();
    /// Explicitly set decimation factor, or 0.
    int explicitFactor = 0;

    std::int64_t factor(duration base) const
    {
        if (explicitFactor > 0) return explicitFactor;
        const auto q = hint.count() / base.count();
        return q < 1 ? 1 : q;
    }
    int find(variable_type t, cosim::value_reference r) const;
    const cosim::variable_description& var(int i) const { return md.variables.at(i); }
    int var_count() const { return static_cast<int>(md.variables.size()); }
    std::vector<int> vars(std::initializer_list<variable_causality> cs) const;
};

/// The behaviour of a generated slave: a deterministic state machine.
class core
{
public:
    explicit core(const slave_def* def);
    void set(int i, const value& v);
    void start();
    void step(time_point t, duration dt);
    const value& get(int i) const { return values_[i]; }
    const std::vector<value>& values() const { return values_; }

private:
    void update();
    const slave_def* def_;
    std::vector<value> values_;
    std::uint64_t state_ = 0;
    bool started_ = false;
};

enum class call
{
    setup,
    set,
    get,
    start,
    step,
    end
};
const char* to_string(call c);

struct event
{
    call kind;
    time_point t;
    duration dt;
    /// Values of all variables when a start or step call was made.
    std::vector<value> snapshot;
    /// The variables set in a set call.
    std::vector<std::pair<int, value>> sets;
    std::int64_t seqBegin = 0;
    std::int64_t seqEnd = 0;
    std::optional<time_point> stop;
    std::optional<double> tolerance;
};

enum class fault_kind
{
    none,
    throw_runtime,
    throw_error,
    throw_logic,
    result_failed,
    result_canceled,
    bad_value
};

struct fault
{
    call where = call::step;
    /// In set and get calls, the data type whose accessor fails.
    variable_type type = variable_type::real;
    int occurrence = 0;
    fault_kind kind = fault_kind::none;
    std::string text;
};

std::int64_t next_seq();

class rec_slave : public cosim::slave
{
public:
    explicit rec_slave(const slave_def* def);

    // inspection
    const slave_def& def() const { return *def_; }
    const std::vector<event>& log() const { return log_; }
    const core& state() const { return core_; }
    std::vector<event> steps() const;
    int steps_done() const { return stepsDone_; }
    /// Whether some call has failed.
    bool failed() const { return failed_; }
    void add_fault(const fault& f) { faults_.push_back(f); }
    /// Random delays of up to this many microseconds in calls.
    void set_jitter(int us, std::uint64_t seed)
    {
        jitter_ = us;
        jitterSeed_ = seed;
    }
    /// Called at the beginning of every do_step().
    std::function<void()> onStep;
    /// Whether individual set and get calls are logged.
    bool logAccess = true;

    cosim::model_description model_description() const override { return def_->md; }
    void setup(time_point startTime, std::optional<time_point> stopTime, std::optional<double> relativeTolerance) override;
    void start_simulation() override;
    void end_simulation() override;
    cosim::step_result do_step(time_point currentT, duration deltaT) override;
    void get_real_variables(gsl::span<const cosim::value_reference> variables, gsl::span<double> values) const override;
    void get_integer_variables(gsl::span<const cosim::value_reference> variables, gsl::span<int> values) const override;
    void get_boolean_variables(gsl::span<const cosim::value_reference> variables, gsl::span<bool> values) const override;
    void get_string_variables(gsl::span<const cosim::value_reference> variables, gsl::span<std::string> values) const override;
    void set_real_variables(gsl::span<const cosim::value_reference> variables, gsl::span<const double> values) override;
    void set_integer_variables(gsl::span<const cosim::value_reference> variables, gsl::span<const int> values) override;
    void set_boolean_variables(gsl::span<const cosim::value_reference> variables, gsl::span<const bool> values) override;
    void set_string_variables(gsl::span<const cosim::value_reference> variables, gsl::span<const std::string> values) override;

private:
    struct busy_guard;
    template<typename T>
    void get_impl(variable_type t, gsl::span<const cosim::value_reference> variables, gsl::span<T> values) const;
    template<typename T>
    void set_impl(variable_type t, gsl::span<const cosim::value_reference> variables, gsl::span<const T> values);
    fault_kind check_fault(call c, variable_type t) const;
    void delay() const;

    const slave_def* def_;
    core core_;
    mutable std::vector<event> log_;
    mutable std::atomic<bool> busy_{false};
    std::atomic<int> stepsDone_{0};
    mutable std::atomic<bool> failed_{false};
    std::vector<fault> faults_;
    mutable std::map<std::pair<int, int>, int> counts_;
    int jitter_ = 0;
    mutable std::uint64_t jitterSeed_ = 0;
};

// --- functions ---------------------------------------------------------------

struct io_ref
{
    int group, groupInstance, io, ioInstance;
    bool operator<(const io_ref& o) const
    {
        return std::tie(group, groupInstance, io, ioInstance) < std::tie(o.group, o.groupInstance, o.io, o.ioInstance);
    }
    cosim::function_io_reference ref() const { return {group, groupInstance, io, ioInstance}; }
};

struct fun_io
{
    io_ref ref;
    variable_type type;
    bool input;
};

struct fun_def
{
    enum kind_t
    {
        linear,
        vector_sum,
        custom
    } kind = linear;
    double offset = 0, factor = 1;
    int inputCount = 1, dimension = 1;
    variable_type numericType = variable_type::real;
    cosim::function_description custom_description;
    std::uint64_t salt = 0;

    std::vector<fun_io> ios() const;
    cosim::function_description description() const;
    std::map<io_ref, value> compute(const std::map<io_ref, value>& in) const;
    std::string text() const;
};

std::shared_ptr<cosim::function> make_function(const fun_def& d);

// --- systems -----------------------------------------------------------------

struct ss_conn
{
    int src, srcVar, tgt, tgtVar;
};
struct sf_conn
{
    int src, srcVar, fun;
    fun_io io;
};
struct fs_conn
{
    int fun;
    fun_io io;
    int tgt, tgtVar;
};
struct initial_value
{
    int sim, var;
    value val;
};

struct sysdef
{
    duration base = duration(1);
    time_point start;
    std::optional<unsigned> threads;
    std::vector<std::shared_ptr<slave_def>> slaves;
    std::vector<std::shared_ptr<fun_def>> funs;
    std::vector<ss_conn> ss;
    std::vector<sf_conn> sf;
    std::vector<fs_conn> fs;
    std::vector<initial_value> initial;

    std::int64_t factor(int i) const { return slaves[i]->factor(base); }
    cosim::variable_id vid(int sim, int var) const
    {
        const auto& v = slaves[sim]->var(var);
        return {sim, v.type, v.reference};
    }
    cosim::function_io_id fid(int fun, const fun_io& io) const { return {fun, io.type, io.ref.ref()}; }
    std::string text() const;
    bool input_used(int sim, int var) const;
    bool io_used(int fun, const io_ref& r) const;
    /// Whether feedthrough is possible around a loop.
    bool has_algebraic_loop() const;
};

struct gen_options
{
    int minSlaves = 1, maxSlaves = 5;
    int maxFunctions = 0;
    int maxVars = 8;
    int maxFactor = 6;
    int connectionPercent = 70;
    bool feedthrough = true;
    bool initialValues = false;
    bool customFunctions = true;
    std::vector<unsigned> threadCounts = {0, 1, 2, 4};
    bool localsAndCalculated = true;
    /// Percentage of variables made real irrespective of the usual weights.
    int extraReal = 0;
};

std::shared_ptr<slave_def> gen_slave(pbt::test_case& c, const std::string& name, duration base, const gen_options& o);
std::shared_ptr<fun_def> gen_function(pbt::test_case& c, const gen_options& o);
/// Times within +/- 100 years, base steps from 1 ns to some seconds.
sysdef gen_system(pbt::test_case& c, const gen_options& o);
void gen_connections(pbt::test_case& c, sysdef& s, const gen_options& o);

/// A real execution of a system.
struct running
{
    std::shared_ptr<cosim::fixed_step_algorithm> algo;
    std::unique_ptr<cosim::execution> exe;
    std::vector<std::shared_ptr<rec_slave>> slaves;
    std::vector<std::shared_ptr<cosim::function>> funs;
};
/// Creates the execution and adds slaves and functions.
running build(const sysdef& s, bool connect = true);

/// The reference interpreter.
class model
{
public:
    explicit model(const sysdef& s);
    // May be changed between steps.
    std::vector<ss_conn> ss;
    std::vector<sf_conn> sf;
    std::vector<fs_conn> fs;
    std::vector<bool> alive;
    using modifier = std::function<value(const value&, duration)>;
    /// (simulator, variable) -> modifier, as seen by the slave (inputs) or by readers (outputs).
    std::map<std::pair<int, int>, modifier> outMod;
    void set_input_modifier(int sim, int var, modifier m);
    void set_value(int sim, int var, const value& v);

    void initialize();
    bool initialized() const { return initialized_; }
    void step();
    long steps() const { return k_; }
    time_point now() const { return t_; }
    /// Slave snapshots at start (before/after the call).
    std::vector<std::vector<value>> atStart;
    struct step_info
    {
        time_point t;
        duration dt;
        std::vector<value> snapshot;
    };
    /// All steps taken by each slave.
    std::vector<std::vector<step_info>> stepsOf;
    /// Simulators whose steps ended with the latest base step.
    std::vector<int> finished() const;
    bool is_finished(int sim) const { return alive[sim] && k_ % factor_[sim] == 0; }
    const value& raw(int sim, int var) const { return cores_[sim].get(var); }
    /// A variable's value as seen by observers.
    value read(int sim, int var) const { return published_[sim][var]; }
    std::int64_t factor(int sim) const { return factor_[sim]; }
    void set_factor(int sim, std::int64_t f) { factor_[sim] = f; }
    /// All variables ever written in each slave.
    std::vector<std::set<int>> written;

private:
    bool fun_due(int f) const;
    void transfer();
    void apply_sets(int sim, duration dt);
    void publish(int sim, duration dt);
    const sysdef& s_;
    std::vector<core> cores_;
    std::vector<std::int64_t> factor_;
    std::vector<std::map<io_ref, value>> funIn_;
    std::vector<std::map<io_ref, value>> funOut_;
    std::vector<std::vector<value>> last_; // last value given to each variable
    std::vector<std::set<int>> pending_;
    std::vector<std::vector<value>> published_;
    std::map<std::pair<int, int>, modifier> inMod_;
    long k_ = 0;
    time_point t_;
    bool initialized_ = false;
};

/// Compares the recorded steps of all slaves with the model's.
void compare_steps(const sysdef& s, const running& r, const model& m, const std::string& tag);

// --- observers ---------------------------------------------------------------

struct note
{
    enum kind_t
    {
        added,
        removed,
        connected,
        disconnected,
        initialized,
        sim_step,
        step
    } kind;
    int sim = -1;
    std::string name;
    cosim::variable_id a{}, b{};
    long long stepNumber = 0;
    duration dt{};
    time_point t;
    std::vector<value> values; // for sim_step and initialized (all simulators in order)
};
std::string show(const note& n);

class rec_observer : public cosim::observer
{
public:
    bool expose = true;
    std::vector<note> log;
    std::map<int, cosim::observable*> observables;
    std::function<void(const note&)> onNote;

    void simulator_added(cosim::simulator_index, cosim::observable*, time_point) override;
    void simulator_removed(cosim::simulator_index, time_point) override;
    void variables_connected(cosim::variable_id output, cosim::variable_id input, time_point) override;
    void variable_disconnected(cosim::variable_id input, time_point) override;
    void simulation_initialized(cosim::step_number firstStep, time_point startTime) override;
    void step_complete(cosim::step_number lastStep, duration lastStepSize, time_point currentTime) override;
    void simulator_step_complete(cosim::simulator_index index, cosim::step_number lastStep, duration lastStepSize, time_point currentTime) override;

private:
    void add(note n);
};
/// Reads all variables of an observable (which must have been exposed).
std::vector<value> read_all(cosim::observable* o);

} // namespace sim
#endif
