// A stand-in for the FMI Library: "loads" FMUs that exist only as descriptions
// in a table, and checks that it is itself used as it should.
#include "fake_fmi.hpp"

#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <sstream>

struct fmi_xml_context_t
{
    jm_callbacks* cb;
};
struct fmi1_import_t
{
    fake::handle h;
};
struct fmi2_import_t
{
    fake::handle h;
};
struct fmi1_import_variable_list_t
{
    const fake::model* m;
};
struct fmi2_import_variable_list_t
{
    const fake::model* m;
};

namespace fake
{
handle* of(fmi1_import_t* f) { return f ? &f->h : nullptr; }
handle* of(fmi2_import_t* f) { return f ? &f->h : nullptr; }

namespace
{
bool slurp(const std::string& path, std::string& out)
{
    std::ifstream f(path, std::ios::binary);
    if (!f) return false;
    std::stringstream s;
    s << f.rdbuf();
    out = s.str();
    return true;
}

void library_error(fmi_import_context_t* c, const std::string& msg)
{
    std::snprintf(c->cb->errMessageBuffer, JM_MAX_ERROR_MESSAGE_SIZE, "%s", msg.c_str());
    if (c->cb->logger) c->cb->logger(c->cb, "FMILIB", jm_log_level_error, c->cb->errMessageBuffer);
}

template<typename F>
handle& live(F* f, const char* fn)
{
    auto h = of(f);
    if (!h || !live_handles.count(h)) {
        misused(std::string(fn) + " with a handle that was freed or never existed");
        std::fprintf(stderr, "fake FMI Library: %s\n", misuse.c_str());
        std::abort(); // there is nothing to go on with
    }
    if (!live_contexts.count(h->context)) misused(std::string(fn) + " after the context was freed");
    return *h;
}

template<typename F>
F* parse(int version, fmi_import_context_t* c, const char* dir)
{
    if (!live_contexts.count(c)) {
        misused("parse_xml with a context that is not alive");
        return nullptr;
    }
    std::string xml;
    const model* m = nullptr;
    if (slurp(std::string(dir) + "/modelDescription.xml", xml)) {
        const auto at = xml.find("stamp=\"");
        if (at != std::string::npos && xml.find("</fmiModelDescription>") != std::string::npos) {
            const auto n = std::strtoul(xml.c_str() + at + 7, nullptr, 10);
            if (n < models.size()) m = &models[n];
        }
    }
    if (!m || !m->parses || m->version != version) {
        library_error(c, "cannot parse " + std::string(dir));
        return nullptr;
    }
    auto f = new F;
    f->h.version = version;
    f->h.m = m;
    f->h.context = c;
    f->h.dir = dir;
    for (auto& v : m->vars) {
        if (v.t == string) f->h.strings[v.vr] = v.s;
        else f->h.numbers[{v.t == enumeration ? integer : v.t, v.vr}] = v.t == real ? v.r : v.i;
    }
    live_handles.insert(&f->h);
    if (c->cb->logger) c->cb->logger(c->cb, "FMIXML", jm_log_level_verbose, "parsed");
    return f;
}

template<typename F>
void release(F* f)
{
    if (!f) return;
    auto& h = live(f, "free");
    if (h.instance) misused("the handle was freed before the slave instance");
    if (h.dll) misused("the handle was freed before the library was unloaded");
    if (h.context->cb->logger) h.context->cb->logger(h.context->cb, "FMIXML", jm_log_level_verbose, "freed");
    live_handles.erase(&h);
    delete f;
}

template<typename F>
jm_status_enu_t load(F* f)
{
    auto& h = live(f, "create_dllfmu");
    if (h.dll) misused("the library was loaded twice");
    if (!h.m->loads) {
        library_error(h.context, "cannot load the code of " + h.m->name);
        return jm_status_error;
    }
    for (auto& [name, contents] : h.m->files) {
        std::string got;
        if (!slurp(h.dir + "/" + name, got)) misused("code was loaded while the FMU's file " + name + " was missing");
        else if (got != contents) misused("code was loaded while the FMU's file " + name + " was not as it should be");
    }
    loaded_from.push_back(h.dir);
    h.dll = true;
    ++live_dlls;
    return jm_status_success;
}

template<typename F>
void unload(F* f)
{
    auto& h = live(f, "destroy_dllfmu");
    if (h.instance) misused("the library was unloaded before the slave instance was freed");
    if (!h.dll) return;
    h.dll = false;
    --live_dlls;
}

void emit(handle& h, const message& m)
{
    const char *name = h.instance_name.c_str(), *cat = m.category.c_str(), *text = m.text.c_str();
    if (h.version == 1) {
        const auto st = static_cast<fmi1_status_t>(m.st);
        if (m.number == 0) h.cb1.logger(&h, name, st, cat, "%s", text);
        else if (m.number == 1) h.cb1.logger(&h, name, st, cat, text);
        else h.cb1.logger(&h, name, st, cat, "%d%%: %s/%.3f", m.number, text, 0.5);
    } else {
        const auto st = static_cast<fmi2_status_t>(m.st);
        auto env = h.cb2.componentEnvironment;
        if (m.number == 0) h.cb2.logger(env, name, st, cat, "%s", text);
        else if (m.number == 1) h.cb2.logger(env, name, st, cat, text);
        else h.cb2.logger(env, name, st, cat, "%d%%: %s/%.3f", m.number, text, 0.5);
    }
}

status call(handle& h, const char* fn)
{
    if (!h.instance) misused(std::string(fn) + " without a slave instance");
    h.calls.emplace_back(fn);
    if (!script) return ok;
    auto o = script(h, fn);
    for (auto& m : o.messages) emit(h, m);
    return o.st;
}

template<typename F>
jm_status_enu_t instantiate(F* f, const char* name)
{
    auto& h = live(f, "instantiate");
    if (!h.dll) misused("instantiation without the library");
    if (h.instance) misused("instantiated twice with one handle");
    h.instance_name = name ? name : "";
    h.instance = true;
    auto o = script ? script(h, "instantiate") : outcome{};
    for (auto& m : o.messages) emit(h, m);
    if (o.st != ok || !h.m->instantiates) {
        h.instance = false;
        return jm_status_error;
    }
    h.st = handle::instantiated;
    ++live_instances;
    return jm_status_success;
}

template<typename F>
void free_instance(F* f)
{
    auto& h = live(f, "free_instance");
    if (!h.instance) {
        misused("a slave instance was freed twice");
        return;
    }
    h.instance = false;
    --live_instances;
}

template<typename F, typename V>
status get(F* f, const char* fn, int t, const unsigned vr[], std::size_t n, V value[])
{
    auto& h = live(f, fn);
    const auto st = call(h, fn);
    for (std::size_t i = 0; i < n; ++i) {
        auto v = h.numbers[{t, vr[i]}];
        if (t == boolean && v != 0 && h.truths.count(vr[i])) v = h.truths[vr[i]];
        value[i] = static_cast<V>(v);
    }
    return st;
}

template<typename F, typename V>
status set(F* f, const char* fn, int t, const unsigned vr[], std::size_t n, const V value[])
{
    auto& h = live(f, fn);
    const auto st = call(h, fn);
    if (st < error)
        for (std::size_t i = 0; i < n; ++i) {
            h.numbers[{t, vr[i]}] = static_cast<double>(value[i]);
            if (t == boolean && value[i] != 0 && value[i] != 1) misused("a boolean that is neither true nor false");
        }
    return st;
}

template<typename F>
status get_strings(F* f, const char* fn, const unsigned vr[], std::size_t n, const char* value[])
{
    auto& h = live(f, fn);
    for (auto& s : h.returned) s.assign(s.size(), '#'); // they were good until this call
    h.returned.clear();
    const auto st = call(h, fn);
    h.returned.reserve(n);
    for (std::size_t i = 0; i < n; ++i) {
        if (h.null_strings.count(vr[i])) {
            value[i] = nullptr;
            continue;
        }
        h.returned.push_back(h.strings[vr[i]]);
        value[i] = h.returned.back().c_str();
    }
    return st;
}

template<typename F>
status set_strings(F* f, const char* fn, const unsigned vr[], std::size_t n, const char* const value[])
{
    auto& h = live(f, fn);
    const auto st = call(h, fn);
    if (st < error)
        for (std::size_t i = 0; i < n; ++i) {
            h.strings[vr[i]] = value[i];
            h.null_strings.erase(vr[i]);
        }
    return st;
}

template<typename F>
status step(F* f, double t, double dt)
{
    auto& h = live(f, "do_step");
    if (h.st != handle::stepping) misused("do_step in the wrong state");
    const auto st = call(h, "do_step");
    h.steps.emplace_back(t, dt);
    return st;
}

template<typename F>
status terminate(F* f)
{
    auto& h = live(f, "terminate");
    if (h.st != handle::stepping) misused("terminate in the wrong state");
    if (++h.terminations > 1) misused("terminated twice");
    h.st = handle::terminated;
    return call(h, "terminate");
}

template<typename L, typename F>
L* list(F* f)
{
    auto l = new L{live(f, "get_variable_list").m};
    live_lists.insert(l);
    return l;
}

template<typename L>
void free_list(L* l)
{
    if (!live_lists.erase(l)) {
        misused("a variable list was freed twice");
        return;
    }
    delete l;
}
} // namespace
} // namespace fake

using namespace fake;

namespace
{
template<typename X>
const variable& var(X* v)
{
    return *reinterpret_cast<const variable*>(v);
}
template<typename X>
const variable& var_as(X* v, type t)
{
    auto& r = *reinterpret_cast<const variable*>(v);
    if (r.t != t) misused("a variable was treated as one of another type");
    return r;
}
} // namespace

extern "C" {

jm_string jm_get_last_error(jm_callbacks* cb) { return cb->errMessageBuffer; }

fmi_import_context_t* fmi_import_allocate_context(jm_callbacks* cb)
{
    auto c = new fmi_import_context_t{cb};
    live_contexts.insert(c);
    return c;
}

void fmi_import_free_context(fmi_import_context_t* c)
{
    if (!live_contexts.erase(c)) {
        misused("the context was freed twice");
        return;
    }
    for (auto h : live_handles)
        if (h->context == c) misused("the context was freed before a handle");
    if (c->cb->logger) c->cb->logger(c->cb, "FMILIB", jm_log_level_verbose, "context freed");
    delete c;
}

// ---- FMI 1 ----
fmi1_import_t* fmi1_import_parse_xml(fmi_import_context_t* c, const char* dir) { return parse<fmi1_import_t>(1, c, dir); }
void fmi1_import_free(fmi1_import_t* f) { release(f); }
fmi1_fmu_kind_enu_t fmi1_import_get_fmu_kind(fmi1_import_t* f) { return static_cast<fmi1_fmu_kind_enu_t>(live(f, "get_fmu_kind").m->kind); }
const char* fmi1_import_get_model_name(fmi1_import_t* f) { return live(f, "get_model_name").m->name.c_str(); }
const char* fmi1_import_get_GUID(fmi1_import_t* f) { return live(f, "get_GUID").m->guid.c_str(); }
const char* fmi1_import_get_description(fmi1_import_t* f) { return live(f, "get_description").m->description.c_str(); }
const char* fmi1_import_get_author(fmi1_import_t* f) { return live(f, "get_author").m->author.c_str(); }
const char* fmi1_import_get_model_version(fmi1_import_t* f) { return live(f, "get_model_version").m->model_version.c_str(); }
fmi1_import_variable_list_t* fmi1_import_get_variable_list(fmi1_import_t* f) { return list<fmi1_import_variable_list_t>(f); }
void fmi1_import_free_variable_list(fmi1_import_variable_list_t* l) { free_list(l); }
unsigned int fmi1_import_get_variable_list_size(fmi1_import_variable_list_t* l) { return static_cast<unsigned>(l->m->vars.size()); }
fmi1_import_variable_t* fmi1_import_get_variable(fmi1_import_variable_list_t* l, unsigned int i) { return (fmi1_import_variable_t*)&l->m->vars.at(i); }
const char* fmi1_import_get_variable_name(fmi1_import_variable_t* v) { return var(v).name.c_str(); }
fmi1_value_reference_t fmi1_import_get_variable_vr(fmi1_import_variable_t* v) { return var(v).vr; }
fmi1_base_type_enu_t fmi1_import_get_variable_base_type(fmi1_import_variable_t* v) { return static_cast<fmi1_base_type_enu_t>(var(v).t); }
fmi1_causality_enu_t fmi1_import_get_causality(fmi1_import_variable_t* v) { return static_cast<fmi1_causality_enu_t>(var(v).causality); }
fmi1_variability_enu_t fmi1_import_get_variability(fmi1_import_variable_t* v) { return static_cast<fmi1_variability_enu_t>(var(v).variability); }
int fmi1_import_get_variable_has_start(fmi1_import_variable_t* v) { return var(v).start; }
fmi1_import_real_variable_t* fmi1_import_get_variable_as_real(fmi1_import_variable_t* v) { return (fmi1_import_real_variable_t*)&var_as(v, real); }
fmi1_import_integer_variable_t* fmi1_import_get_variable_as_integer(fmi1_import_variable_t* v) { return (fmi1_import_integer_variable_t*)&var_as(v, integer); }
fmi1_import_bool_variable_t* fmi1_import_get_variable_as_boolean(fmi1_import_variable_t* v) { return (fmi1_import_bool_variable_t*)&var_as(v, boolean); }
fmi1_import_string_variable_t* fmi1_import_get_variable_as_string(fmi1_import_variable_t* v) { return (fmi1_import_string_variable_t*)&var_as(v, string); }
fmi1_real_t fmi1_import_get_real_variable_start(fmi1_import_real_variable_t* v) { return var(v).r; }
fmi1_integer_t fmi1_import_get_integer_variable_start(fmi1_import_integer_variable_t* v) { return var(v).i; }
fmi1_boolean_t fmi1_import_get_boolean_variable_start(fmi1_import_bool_variable_t* v) { return static_cast<fmi1_boolean_t>(var(v).i); }
fmi1_string_t fmi1_import_get_string_variable_start(fmi1_import_string_variable_t* v) { return var(v).s.c_str(); }
fmi1_import_capabilities_t* fmi1_import_get_capabilities(fmi1_import_t* f) { return (fmi1_import_capabilities_t*)live(f, "get_capabilities").m; }
int fmi1_import_get_canBeInstantiatedOnlyOncePerProcess(fmi1_import_capabilities_t* c) { return reinterpret_cast<const model*>(c)->once; }
jm_status_enu_t fmi1_import_create_dllfmu(fmi1_import_t* f, fmi1_callback_functions_t cb, int)
{
    of(f)->cb1 = cb;
    return load(f);
}
void fmi1_import_destroy_dllfmu(fmi1_import_t* f) { unload(f); }
jm_status_enu_t fmi1_import_instantiate_slave(fmi1_import_t* f, fmi1_string_t name, fmi1_string_t, fmi1_string_t, fmi1_real_t, fmi1_boolean_t, fmi1_boolean_t) { return instantiate(f, name); }
fmi1_status_t fmi1_import_initialize_slave(fmi1_import_t* f, fmi1_real_t start, fmi1_boolean_t hasStop, fmi1_real_t stop)
{
    auto& h = live(f, "initialize_slave");
    if (h.st != handle::instantiated) misused("initialize_slave in the wrong state");
    h.start = start;
    h.has_stop = hasStop;
    h.stop = stop;
    const auto st = call(h, "initialize");
    if (st < discard) h.st = handle::stepping;
    return static_cast<fmi1_status_t>(st);
}
fmi1_status_t fmi1_import_terminate_slave(fmi1_import_t* f) { return static_cast<fmi1_status_t>(terminate(f)); }
void fmi1_import_free_slave_instance(fmi1_import_t* f) { free_instance(f); }
fmi1_status_t fmi1_import_do_step(fmi1_import_t* f, fmi1_real_t t, fmi1_real_t dt, fmi1_boolean_t) { return static_cast<fmi1_status_t>(step(f, t, dt)); }
fmi1_status_t fmi1_import_get_real(fmi1_import_t* f, const fmi1_value_reference_t vr[], size_t n, fmi1_real_t v[]) { return static_cast<fmi1_status_t>(get(f, "get_real", real, vr, n, v)); }
fmi1_status_t fmi1_import_get_integer(fmi1_import_t* f, const fmi1_value_reference_t vr[], size_t n, fmi1_integer_t v[]) { return static_cast<fmi1_status_t>(get(f, "get_integer", integer, vr, n, v)); }
fmi1_status_t fmi1_import_get_boolean(fmi1_import_t* f, const fmi1_value_reference_t vr[], size_t n, fmi1_boolean_t v[]) { return static_cast<fmi1_status_t>(get(f, "get_boolean", boolean, vr, n, v)); }
fmi1_status_t fmi1_import_get_string(fmi1_import_t* f, const fmi1_value_reference_t vr[], size_t n, fmi1_string_t v[]) { return static_cast<fmi1_status_t>(get_strings(f, "get_string", vr, n, v)); }
fmi1_status_t fmi1_import_set_real(fmi1_import_t* f, const fmi1_value_reference_t vr[], size_t n, const fmi1_real_t v[]) { return static_cast<fmi1_status_t>(set(f, "set_real", real, vr, n, v)); }
fmi1_status_t fmi1_import_set_integer(fmi1_import_t* f, const fmi1_value_reference_t vr[], size_t n, const fmi1_integer_t v[]) { return static_cast<fmi1_status_t>(set(f, "set_integer", integer, vr, n, v)); }
fmi1_status_t fmi1_import_set_boolean(fmi1_import_t* f, const fmi1_value_reference_t vr[], size_t n, const fmi1_boolean_t v[]) { return static_cast<fmi1_status_t>(set(f, "set_boolean", boolean, vr, n, v)); }
fmi1_status_t fmi1_import_set_string(fmi1_import_t* f, const fmi1_value_reference_t vr[], size_t n, const fmi1_string_t v[]) { return static_cast<fmi1_status_t>(set_strings(f, "set_string", vr, n, v)); }

// ---- FMI 2 ----
fmi2_import_t* fmi2_import_parse_xml(fmi_import_context_t* c, const char* dir, fmi2_xml_callbacks_t*) { return parse<fmi2_import_t>(2, c, dir); }
void fmi2_import_free(fmi2_import_t* f) { release(f); }
fmi2_fmu_kind_enu_t fmi2_import_get_fmu_kind(fmi2_import_t* f) { return static_cast<fmi2_fmu_kind_enu_t>(live(f, "get_fmu_kind").m->kind); }
const char* fmi2_import_get_model_name(fmi2_import_t* f) { return live(f, "get_model_name").m->name.c_str(); }
const char* fmi2_import_get_GUID(fmi2_import_t* f) { return live(f, "get_GUID").m->guid.c_str(); }
const char* fmi2_import_get_description(fmi2_import_t* f) { return live(f, "get_description").m->description.c_str(); }
const char* fmi2_import_get_author(fmi2_import_t* f) { return live(f, "get_author").m->author.c_str(); }
const char* fmi2_import_get_model_version(fmi2_import_t* f) { return live(f, "get_model_version").m->model_version.c_str(); }
fmi2_import_variable_list_t* fmi2_import_get_variable_list(fmi2_import_t* f, int) { return list<fmi2_import_variable_list_t>(f); }
void fmi2_import_free_variable_list(fmi2_import_variable_list_t* l) { free_list(l); }
size_t fmi2_import_get_variable_list_size(fmi2_import_variable_list_t* l) { return l->m->vars.size(); }
fmi2_import_variable_t* fmi2_import_get_variable(fmi2_import_variable_list_t* l, size_t i) { return (fmi2_import_variable_t*)&l->m->vars.at(i); }
const char* fmi2_import_get_variable_name(fmi2_import_variable_t* v) { return var(v).name.c_str(); }
fmi2_value_reference_t fmi2_import_get_variable_vr(fmi2_import_variable_t* v) { return var(v).vr; }
fmi2_base_type_enu_t fmi2_import_get_variable_base_type(fmi2_import_variable_t* v) { return static_cast<fmi2_base_type_enu_t>(var(v).t); }
fmi2_causality_enu_t fmi2_import_get_causality(fmi2_import_variable_t* v) { return static_cast<fmi2_causality_enu_t>(var(v).causality); }
fmi2_variability_enu_t fmi2_import_get_variability(fmi2_import_variable_t* v) { return static_cast<fmi2_variability_enu_t>(var(v).variability); }
int fmi2_import_get_variable_has_start(fmi2_import_variable_t* v) { return var(v).start; }
fmi2_import_real_variable_t* fmi2_import_get_variable_as_real(fmi2_import_variable_t* v) { return (fmi2_import_real_variable_t*)&var_as(v, real); }
fmi2_import_integer_variable_t* fmi2_import_get_variable_as_integer(fmi2_import_variable_t* v) { return (fmi2_import_integer_variable_t*)&var_as(v, integer); }
fmi2_import_bool_variable_t* fmi2_import_get_variable_as_boolean(fmi2_import_variable_t* v) { return (fmi2_import_bool_variable_t*)&var_as(v, boolean); }
fmi2_import_string_variable_t* fmi2_import_get_variable_as_string(fmi2_import_variable_t* v) { return (fmi2_import_string_variable_t*)&var_as(v, string); }
fmi2_real_t fmi2_import_get_real_variable_start(fmi2_import_real_variable_t* v) { return var(v).r; }
fmi2_integer_t fmi2_import_get_integer_variable_start(fmi2_import_integer_variable_t* v) { return var(v).i; }
fmi2_boolean_t fmi2_import_get_boolean_variable_start(fmi2_import_bool_variable_t* v) { return var(v).i; }
fmi2_string_t fmi2_import_get_string_variable_start(fmi2_import_string_variable_t* v) { return var(v).s.c_str(); }
unsigned int fmi2_import_get_capability(fmi2_import_t* f, fmi2_capabilities_enu_t id)
{
    auto& h = live(f, "get_capability");
    if (id == fmi2_cs_canBeInstantiatedOnlyOncePerProcess) return h.m->once;
    if (id == fmi2_me_canBeInstantiatedOnlyOncePerProcess) return !h.m->once;
    return 1;
}
jm_status_enu_t fmi2_import_create_dllfmu(fmi2_import_t* f, fmi2_fmu_kind_enu_t kind, const fmi2_callback_functions_t* cb)
{
    of(f)->cb2 = *cb;
    if (kind != fmi2_fmu_kind_cs) misused("the library was loaded for another kind of FMU");
    return load(f);
}
void fmi2_import_destroy_dllfmu(fmi2_import_t* f) { unload(f); }
jm_status_enu_t fmi2_import_instantiate(fmi2_import_t* f, fmi2_string_t name, fmi2_type_t type, fmi2_string_t, fmi2_boolean_t)
{
    if (type != fmi2_cosimulation) misused("instantiated for model exchange");
    return instantiate(f, name);
}
void fmi2_import_free_instance(fmi2_import_t* f) { free_instance(f); }
fmi2_status_t fmi2_import_setup_experiment(fmi2_import_t* f, fmi2_boolean_t hasTol, fmi2_real_t tol, fmi2_real_t start, fmi2_boolean_t hasStop, fmi2_real_t stop)
{
    auto& h = live(f, "setup_experiment");
    if (h.st != handle::instantiated) misused("setup_experiment in the wrong state");
    h.has_tolerance = hasTol;
    h.tolerance = tol;
    h.start = start;
    h.has_stop = hasStop;
    h.stop = stop;
    const auto st = call(h, "setup_experiment");
    if (st < discard) h.st = handle::setup;
    return static_cast<fmi2_status_t>(st);
}
fmi2_status_t fmi2_import_enter_initialization_mode(fmi2_import_t* f)
{
    auto& h = live(f, "enter_initialization_mode");
    if (h.st != handle::setup) misused("enter_initialization_mode in the wrong state");
    const auto st = call(h, "enter_initialization");
    if (st < discard) h.st = handle::initializing;
    return static_cast<fmi2_status_t>(st);
}
fmi2_status_t fmi2_import_exit_initialization_mode(fmi2_import_t* f)
{
    auto& h = live(f, "exit_initialization_mode");
    if (h.st != handle::initializing) misused("exit_initialization_mode in the wrong state");
    const auto st = call(h, "exit_initialization");
    if (st < discard) h.st = handle::stepping;
    return static_cast<fmi2_status_t>(st);
}
fmi2_status_t fmi2_import_terminate(fmi2_import_t* f) { return static_cast<fmi2_status_t>(terminate(f)); }
fmi2_status_t fmi2_import_do_step(fmi2_import_t* f, fmi2_real_t t, fmi2_real_t dt, fmi2_boolean_t) { return static_cast<fmi2_status_t>(step(f, t, dt)); }
fmi2_status_t fmi2_import_get_real(fmi2_import_t* f, const fmi2_value_reference_t vr[], size_t n, fmi2_real_t v[]) { return static_cast<fmi2_status_t>(get(f, "get_real", real, vr, n, v)); }
fmi2_status_t fmi2_import_get_integer(fmi2_import_t* f, const fmi2_value_reference_t vr[], size_t n, fmi2_integer_t v[]) { return static_cast<fmi2_status_t>(get(f, "get_integer", integer, vr, n, v)); }
fmi2_status_t fmi2_import_get_boolean(fmi2_import_t* f, const fmi2_value_reference_t vr[], size_t n, fmi2_boolean_t v[]) { return static_cast<fmi2_status_t>(get(f, "get_boolean", boolean, vr, n, v)); }
fmi2_status_t fmi2_import_get_string(fmi2_import_t* f, const fmi2_value_reference_t vr[], size_t n, fmi2_string_t v[]) { return static_cast<fmi2_status_t>(get_strings(f, "get_string", vr, n, v)); }
fmi2_status_t fmi2_import_set_real(fmi2_import_t* f, const fmi2_value_reference_t vr[], size_t n, const fmi2_real_t v[]) { return static_cast<fmi2_status_t>(set(f, "set_real", real, vr, n, v)); }
fmi2_status_t fmi2_import_set_integer(fmi2_import_t* f, const fmi2_value_reference_t vr[], size_t n, const fmi2_integer_t v[]) { return static_cast<fmi2_status_t>(set(f, "set_integer", integer, vr, n, v)); }
fmi2_status_t fmi2_import_set_boolean(fmi2_import_t* f, const fmi2_value_reference_t vr[], size_t n, const fmi2_boolean_t v[]) { return static_cast<fmi2_status_t>(set(f, "set_boolean", boolean, vr, n, v)); }
fmi2_status_t fmi2_import_set_string(fmi2_import_t* f, const fmi2_value_reference_t vr[], size_t n, const fmi2_string_t v[]) { return static_cast<fmi2_status_t>(set_strings(f, "set_string", vr, n, v)); }
}
