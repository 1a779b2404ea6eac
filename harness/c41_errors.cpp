// C41: errors say what kind they are, and log records get through at their level.
#include "sim.hpp"
#include "structure.hpp"
#include "zipfile.hpp"

#include <cosim/exception.hpp>
#include <cosim/lib_info.hpp>
#include <cosim/log/logger.hpp>
#include <cosim/log/simple.hpp>
#include <cosim/utility/zip.hpp>

#include <boost/log/sinks/sync_frontend.hpp>
#include <boost/log/sinks/basic_sink_backend.hpp>
#include <boost/smart_ptr/make_shared_object.hpp>

#include <filesystem>
#include <fstream>
#include <iostream>
#include <regex>
#include <thread>

using namespace sim;
namespace fs = std::filesystem;

std::unique_ptr<cosim::function> structure::gen_function_type::instantiate(const cosim::function_parameter_value_map&) { throw std::logic_error("not used"); }

namespace
{
const cosim::errc all[] = {cosim::errc::success, cosim::errc::bad_file, cosim::errc::unsupported_feature, cosim::errc::dl_load_error, cosim::errc::model_error, cosim::errc::nonfatal_bad_value,
    cosim::errc::simulation_error, cosim::errc::invalid_system_structure, cosim::errc::zip_error};
const int allCount = sizeof all / sizeof all[0];

// ---- the error objects themselves -----------------------------------------

void objects(pbt::test_case& c)
{
    c.label("error objects");
    const auto e = all[c.draw(allCount - 1)], f = all[c.draw(allCount - 1)];
    const std::string msg = c.chance(10) ? "" : c.ascii(30, "abc :%s\n\\x");
    c.note(pbt::cat("errors ", static_cast<int>(e), ", ", static_cast<int>(f), ", message \"", msg, "\""));
    const std::error_code code = cosim::make_error_code(e);
    const std::error_condition cond = e;
    PBT_REQUIRE("category", &code.category() == &cosim::error_category() && &cond.category() == &cosim::error_category(), "");
    PBT_REQUIRE("category-name", std::string(code.category().name()) == cosim::library_short_name, code.category().name());
    for (const char* p = code.category().name(); *p; ++p) PBT_REQUIRE("category-name", std::isalnum(static_cast<unsigned char>(*p)) || *p == '-' || *p == '_', "");
    PBT_REQUIRE("condition", code == cond && code == e && !(code != e), "a code does not match its own condition");
    PBT_REQUIRE("condition", cosim::make_error_condition(e) == cond, "");
    PBT_REQUIRE("condition-other", (code == f) == (e == f), static_cast<int>(e), " and ", static_cast<int>(f), " are mixed up");
    PBT_REQUIRE("success", static_cast<bool>(code) == (e != cosim::errc::success), "");
    PBT_REQUIRE("message", !code.message().empty() && code.message() == cond.message(), "");
    PBT_REQUIRE("message-other", (cosim::make_error_code(f).message() == code.message()) == (e == f), "two errors have the same message");
    // codes of other categories are different, though they have the same value
    const std::error_code foreign(static_cast<int>(e), std::generic_category());
    PBT_REQUIRE("foreign", !(foreign == e), "an error of the system is taken for one of the library's");
    const auto sys = c.one_of<std::errc>({std::errc::io_error, std::errc::not_a_directory, std::errc::invalid_argument, std::errc::permission_denied});
    const bool own = c.chance(60);
    const std::error_code used = own ? code : std::make_error_code(sys);
    try {
        if (c.chance(30)) throw cosim::error(used);
        else throw cosim::error(used, msg);
    } catch (const std::runtime_error& x) {
        const auto err = dynamic_cast<const cosim::error*>(&x);
        PBT_REQUIRE("error-code", err && err->code() == used, "");
        if (!own) PBT_REQUIRE("error-code", err->code() == sys, "");
        PBT_REQUIRE("error-what", std::string(x.what()).find(used.message()) != std::string::npos, "what() lacks the standard message");
    }
    const cosim::error withText(used, msg);
    PBT_REQUIRE("error-what", std::string(withText.what()).find(msg) != std::string::npos, "what() lacks the message");
    PBT_REQUIRE("error-what", std::string(withText.what()).find(used.message()) != std::string::npos, "what() lacks the standard message");
    const cosim::error copy(withText);
    PBT_REQUIRE("error-copy", copy.code() == withText.code() && std::string(copy.what()) == withText.what(), "");
    try {
        if (msg.empty()) throw cosim::nonfatal_bad_value();
        throw cosim::nonfatal_bad_value(msg);
    } catch (const cosim::error& x) {
        PBT_REQUIRE("bad-value", x.code() == cosim::errc::nonfatal_bad_value && std::string(x.what()).find(msg) != std::string::npos, "");
    }
    c.nontrivial();
}

// ---- the errors of operations ---------------------------------------------

template<typename F>
void expect(const std::string& tag, cosim::errc e, const std::string& mentions, F&& f)
{
    try {
        f();
    } catch (const cosim::error& x) {
        PBT_REQUIRE(tag, x.code() == e, "code is ", x.code().message(), ", expected ", cosim::make_error_code(e).message(), " (", x.what(), ")");
        PBT_REQUIRE(tag + "-text", std::string(x.what()).find(mentions) != std::string::npos, "\"", x.what(), "\" does not mention \"", mentions, "\"");
        return;
    } catch (const std::exception& x) {
        pbt::fail(tag, pbt::cat("other exception: ", x.what()));
    }
    pbt::fail(tag, "no exception");
}

void structures(pbt::test_case& c)
{
    gen_options o;
    o.maxVars = 6;
    const auto bad = cosim::errc::invalid_system_structure;
    auto def = gen_slave(c, "m", duration(1000), o);
    auto& vars = def->md.variables;
    if (vars.empty()) c.discard();
    const auto m = std::make_shared<structure::gen_model>(def);
    cosim::system_structure ss;
    const std::string name = "e" + c.ascii(4, "abXY_"), other = name + "x";
    ss.add_entity(name, m);
    ss.add_entity("lt", std::make_shared<cosim::linear_transformation_function_type>(), {{cosim::linear_transformation_function_type::offset_parameter_index, 1.0}, {cosim::linear_transformation_function_type::factor_parameter_index, 1.0}});
    auto& v = c.pick(vars);
    const auto what = c.draw(8);
    c.label("error of a system structure");
    c.note(pbt::cat("structure, fault ", what));
    cosim::variable_value_map values;
    switch (what) {
        case 0: expect("duplicate", bad, name, [&] { ss.add_entity(name, m); }); break;
        case 1: expect("empty-name", bad, "", [&] { ss.add_entity("", m); }); break;
        case 2: expect("negative-hint", bad, other, [&] { ss.add_entity(other, m, duration(-1 - c.range(0, 1000))); }); break;
        case 3: expect("unknown-entity", bad, other, [&] { ss.get_variable_description({other, v.name}); }); break;
        case 4: expect("unknown-variable", bad, v.name + "!", [&] { ss.get_variable_description({name, v.name + "!"}); }); break;
        case 5: expect("unknown-function", bad, other, [&] { ss.get_function_io_description({other, "in", 0, "", 0}); }); break;
        case 6: expect("connection", bad, other, [&] { ss.connect_variables({other, v.name}, {name, v.name}); }); break;
        case 7: {
            const auto wrong = v.type == variable_type::string ? variable_type::real : variable_type::string;
            expect("initial-value", bad, v.name, [&] { cosim::add_variable_value(values, ss, {name, v.name}, gen_value(c, wrong)); });
            break;
        }
        case 8: {
            cosim::execution exe(time_point(), std::make_shared<cosim::fixed_step_algorithm>(duration(1000), 0u));
            values[{"lt", "in", 0, "", 0}] = 1.0;
            cosim::system_structure plain;
            plain.add_entity("lt", std::make_shared<cosim::linear_transformation_function_type>(), {{cosim::linear_transformation_function_type::offset_parameter_index, 1.0}, {cosim::linear_transformation_function_type::factor_parameter_index, 1.0}});
            expect("initial-value-of-function", bad, "lt", [&] { cosim::inject_system_structure(exe, plain, values); });
            break;
        }
    }
    c.nontrivial();
}

void executions(pbt::test_case& c)
{
    clear_reports();
    gen_options o;
    o.maxSlaves = 3;
    o.maxVars = 5;
    o.threadCounts = {0, 2};
    auto s = gen_system(c, o);
    const int i = c.irange(0, static_cast<int>(s.slaves.size()) - 1);
    const bool late = c.chance(50);
    auto r = build(s);
    c.note(s.text());
    if (late) {
        auto& d = *s.slaves[i];
        if (d.md.variables.empty()) c.discard();
        auto& v = c.pick(d.md.variables);
        const auto x = gen_value(c, v.type);
        r.exe->step();
        c.label("late initial value");
        expect("late-initial-value", cosim::errc::unsupported_feature, "", [&] {
            switch (type_of(x)) {
                case variable_type::real: r.exe->set_real_initial_value(i, v.reference, std::get<double>(x)); break;
                case variable_type::integer: r.exe->set_integer_initial_value(i, v.reference, std::get<int>(x)); break;
                case variable_type::boolean: r.exe->set_boolean_initial_value(i, v.reference, std::get<bool>(x)); break;
                default: r.exe->set_string_initial_value(i, v.reference, std::get<std::string>(x)); break;
            }
        });
    } else {
        fault f;
        f.where = c.chance(70) ? call::step : call::start;
        static const fault_kind kinds[] = {fault_kind::throw_runtime, fault_kind::throw_error, fault_kind::throw_logic, fault_kind::result_failed};
        f.kind = kinds[c.draw(f.where == call::step ? 3 : 2)];
        f.occurrence = 0;
        f.text = "reason" + c.ascii(5, "abcdef");
        r.slaves[i]->add_fault(f);
        c.note(pbt::cat("fault of ", s.slaves[i]->name, " in ", to_string(f.where)));
        c.label("failing slave");
        auto go = [&] { r.exe->simulate_until(s.start + s.base * c.irange(1, 3)); };
        expect("failing-slave", cosim::errc::simulation_error, s.slaves[i]->name, go);
    }
    check_reports();
    c.nontrivial();
}

void archives(pbt::test_case& c)
{
    namespace zip = cosim::utility::zip;
    c.label("error of an archive");
    const auto dir = fs::current_path() / "zip";
    fs::remove_all(dir);
    fs::create_directories(dir);
    const auto good = dir / "good.zip", bad = dir / "bad.zip";
    std::ofstream(good, std::ios::binary) << zipfile::make_zip({{"a", "hello", true}}, "", "");
    std::ofstream(bad, std::ios::binary) << c.ascii(40, "PK\1\2\3\4\5\6abc") << " ";
    const auto what = c.draw(3);
    c.note(pbt::cat("archive, fault ", what));
    auto isZip = [&](const std::string& tag, auto&& f) {
        try {
            f();
        } catch (const zip::error& x) {
            PBT_REQUIRE(tag, x.code() == cosim::errc::zip_error, x.what());
            return;
        } catch (const std::exception& x) {
            pbt::fail(tag, pbt::cat("other exception: ", x.what()));
        }
        pbt::fail(tag, "no exception");
    };
    switch (what) {
        case 0: isZip("not-zip", [&] { zip::archive a(bad); }); break;
        case 1: isZip("missing", [&] { zip::archive a(dir / "none.zip"); }); break;
        case 2: {
            zip::archive a(good);
            isZip("no-entry", [&] { a.entry_name(static_cast<zip::entry_index>(c.range(1, 1000000))); });
            break;
        }
        case 3: {
            zip::archive a(good);
            try {
                a.extract_file_to(0, dir / "none");
                pbt::fail("no-target", "no exception");
            } catch (const std::system_error&) {
            } catch (const cosim::error& x) {
                PBT_REQUIRE("no-target", x.code() == std::errc::not_a_directory || x.code() == std::errc::io_error, x.what());
            }
            break;
        }
    }
    fs::remove_all(dir);
    c.nontrivial();
}

// ---- log records ---------------------------------------------------------------

namespace bl = boost::log;
using cosim::log::severity_level;
const severity_level levels[] = {cosim::log::trace, cosim::log::debug, cosim::log::info, cosim::log::warning, cosim::log::error, cosim::log::fatal};
const char* const levelNames[] = {"trace", "debug", "info", "warning", "error", "fatal"};

struct collector : bl::sinks::basic_sink_backend<bl::sinks::synchronized_feeding>
{
    std::vector<std::pair<int, std::string>> got;
    void consume(const bl::record_view& r)
    {
        const auto s = r[cosim::log::severity];
        const auto m = r[bl::expressions::smessage];
        got.emplace_back(s ? static_cast<int>(*s) : -1, m ? *m : "(none)");
    }
};

void logging(pbt::test_case& c)
{
    c.label("log records");
    auto core = bl::core::get();
    core->set_logging_enabled(true);
    core->remove_all_sinks();
    std::ostringstream console;
    const bool simple = c.chance(50);
    struct restore
    {
        std::streambuf* old;
        ~restore()
        {
            bl::core::get()->remove_all_sinks();
            bl::core::get()->reset_filter();
            bl::core::get()->set_logging_enabled(false);
            std::clog.rdbuf(old);
        }
    } undo{std::clog.rdbuf(console.rdbuf())};
    auto backend = boost::make_shared<collector>();
    core->add_sink(boost::make_shared<bl::sinks::synchronous_sink<collector>>(backend));
    if (simple) cosim::log::setup_simple_console_logging();
    std::vector<std::pair<int, std::string>> want;
    const int threads = c.chance(40) ? c.irange(2, 4) : 1;
    for (int round = c.irange(1, 3); round > 0; --round) {
        const int level = static_cast<int>(c.draw(5));
        const bool filter = round == 1 || c.chance(80);
        static int current; // the filter stays as it is
        if (want.empty() && !filter) core->reset_filter();
        if (filter) cosim::log::set_global_output_level(levels[level]);
        const int now = filter ? level : want.empty() ? 0 : current;
        current = now;
        c.note(pbt::cat("level ", filter ? levelNames[level] : "unchanged"));
        std::vector<std::vector<std::pair<int, std::string>>> plan(static_cast<std::size_t>(threads));
        for (auto& p : plan)
            for (int n = c.irange(0, 6); n > 0; --n) p.emplace_back(static_cast<int>(c.draw(5)), pbt::cat("message ", c.draw(1000), c.ascii(6, "ab%[] ")));
        auto emit = [](const std::vector<std::pair<int, std::string>>& p) {
            for (auto& [l, m] : p) BOOST_LOG_SEV(cosim::log::logger(), levels[l]) << m;
        };
        std::vector<std::thread> ts;
        for (std::size_t i = 1; i < plan.size(); ++i) ts.emplace_back([&, i] { emit(plan[i]); });
        emit(plan[0]);
        for (auto& t : ts) t.join();
        for (auto& p : plan)
            for (auto& x : p)
                if (x.first >= now) want.push_back(x);
        // of unspecified severity, it is information
        if (c.chance(30)) {
            BOOST_LOG(cosim::log::logger()) << "plain";
            if (now <= static_cast<int>(cosim::log::info)) want.emplace_back(static_cast<int>(cosim::log::info), "plain");
        }
    }
    auto got = backend->got;
    if (threads > 1) {
        std::sort(got.begin(), got.end());
        auto w = want;
        std::sort(w.begin(), w.end());
        PBT_REQUIRE("records", got == w, got.size(), " records, expected ", want.size());
    } else {
        PBT_REQUIRE("records", got.size() == want.size(), got.size(), " records, expected ", want.size());
        for (std::size_t i = 0; i < got.size(); ++i)
            PBT_REQUIRE("records", got[i] == want[i], "record ", i, ": severity ", got[i].first, " \"", got[i].second, "\", expected ", want[i].first, " \"", want[i].second, "\"");
    }
    if (simple) {
        core->flush();
        std::istringstream in(console.str());
        std::multiset<std::string> lines, expected;
        static const std::regex form("[0-9]{2}:[0-9]{2}:[0-9]{2}\\.[0-9]{6} (\\[[a-z ]*\\] .*)");
        for (std::string l; std::getline(in, l);) {
            std::smatch m;
            PBT_REQUIRE("console-form", std::regex_match(l, m, form), "\"", l, "\"");
            lines.insert(m[1]);
        }
        for (auto& [l, m] : want) {
            std::string n = levelNames[l];
            n.resize(7, ' ');
            expected.insert("[" + n + "] " + m);
        }
        PBT_REQUIRE("console", lines == expected, "the console shows\n", console.str());
        c.label("console");
    }
    if (!want.empty()) c.nontrivial();
}

void run(pbt::test_case& c)
{
    switch (c.weighted({25, 25, 20, 10, 20})) {
        case 0: objects(c); break;
        case 1: structures(c); break;
        case 2: executions(c); break;
        case 3: archives(c); break;
        case 4: logging(c); break;
    }
}
} // namespace

int main(int argc, char** argv)
{
    pbt::spec s;
    s.id = "C41";
    s.rule = "pairs of error conditions with messages; invalid edits of system structures, late initial values, failing slaves and bad archives, with the error code they are to have; log records of all severities from one or several threads under changing output levels, with a sink that collects them and the simple console log; non-trivial: some error or record was produced";
    s.quick_cases = 40000;
    s.thorough_cases = 800000;
    s.setup = setup_process;
    s.run = run;
    return pbt::main(argc, argv, s);
}
