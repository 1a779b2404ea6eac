// What the stand-in for the FMI Library knows and records.
#ifndef FAKE_FMI_HPP
#define FAKE_FMI_HPP

#include <fmilib.h>

#include <deque>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <utility>
#include <vector>

namespace fake
{
/// Numbered as in FMI: the base types.
enum type { real, integer, boolean, string, enumeration };
/// Numbered as in FMI: what slaves return.
enum status { ok, warning, discard, error, fatal, pending };

struct variable
{
    std::string name;
    unsigned vr = 0;
    type t = real;
    int causality = 0, variability = 0; // numbered as in the FMI version
    bool start = false;
    double r = 0;
    int i = 0;
    std::string s;
};

/// A made-up FMU.
struct model
{
    int version = 2;
    int kind = 2; // numbered as in the FMI version
    bool parses = true, loads = true, instantiates = true;
    bool once = false;
    std::string name, guid, description, author, model_version;
    std::vector<variable> vars;
    std::map<std::string, std::string> files; // what its code needs (relative path -> contents)
};
/// modelDescription.xml refers to these by `stamp="N"`.
inline std::deque<model> models;

struct message
{
    std::string category, text;
    status st = ok;
    int number = 0; // 0: text is a "%s" argument, 1: text is the format and has no specifiers, 2: with "%d" too
};
struct outcome
{
    status st = ok;
    std::vector<message> messages;
};

struct handle
{
    int version = 0;
    const model* m = nullptr;
    fmi_import_context_t* context = nullptr;
    bool dll = false, instance = false;
    fmi1_callback_functions_t cb1{};
    fmi2_callback_functions_t cb2{};
    std::string instance_name, dir;
    enum state { none, instantiated, setup, initializing, stepping, terminated } st = none;
    double start = 0, stop = 0, tolerance = 0;
    bool has_stop = false, has_tolerance = false;
    std::vector<std::pair<double, double>> steps;
    std::map<std::pair<int, unsigned>, double> numbers; // by (type, reference)
    std::map<unsigned, std::string> strings;
    std::set<unsigned> null_strings;
    std::map<unsigned, int> truths; // what represents "true"
    std::vector<std::string> returned; // the strings got last
    std::vector<std::string> calls;
    int terminations = 0;
};

/// What the slave's next call does, by function name.
inline std::function<outcome(handle&, const std::string&)> script;

/// First misuse of the library that was seen.
inline std::string misuse;
inline void misused(const std::string& what)
{
    if (misuse.empty()) misuse = what;
}

inline std::set<handle*> live_handles;
inline std::set<fmi_import_context_t*> live_contexts;
inline std::set<void*> live_lists;
inline int live_dlls = 0, live_instances = 0;
/// The directories from which code was loaded.
inline std::vector<std::string> loaded_from;

handle* of(fmi1_import_t* f);
handle* of(fmi2_import_t* f);
} // namespace fake
#endif
