// Generated models and function types for system structures.
#ifndef STRUCTURE_HPP
#define STRUCTURE_HPP

#include "sim.hpp"

#include <cosim/exception.hpp>
#include <cosim/orchestration.hpp>
#include <cosim/system_structure.hpp>

namespace structure
{
using namespace sim;

/// A model whose slaves are generated ones.
class gen_model : public cosim::model
{
public:
    explicit gen_model(std::shared_ptr<slave_def> d)
        : def(std::move(d))
        , md_(std::make_shared<cosim::model_description>(def->md))
    { }
    std::shared_ptr<const cosim::model_description> description() const noexcept override { return md_; }
    std::shared_ptr<cosim::slave> instantiate(std::string_view name) override
    {
        auto d = std::make_shared<slave_def>(*def);
        d->name = std::string(name);
        for (char ch : name) d->salt = mix(d->salt, static_cast<std::uint64_t>(ch));
        instances.push_back({d, std::make_shared<rec_slave>(d.get())});
        return instances.back().second;
    }
    std::shared_ptr<slave_def> def;
    std::vector<std::pair<std::shared_ptr<slave_def>, std::shared_ptr<rec_slave>>> instances;

private:
    std::shared_ptr<cosim::model_description> md_;
};

/// A function type with a given description, which makes functions of a given kind.
class gen_function_type : public cosim::function_type
{
public:
    cosim::function_type_description desc;
    std::shared_ptr<fun_def> fun;
    cosim::function_type_description description() const override { return desc; }
    std::unique_ptr<cosim::function> instantiate(const cosim::function_parameter_value_map& parameters) override;
};

inline bool same(const cosim::function_parameter_value_map& a, const cosim::function_parameter_value_map& b)
{
    if (a.size() != b.size()) return false;
    for (auto& [k, v] : a) {
        const auto it = b.find(k);
        if (it == b.end() || it->second != v) return false;
    }
    return true;
}

inline std::string key(const cosim::full_variable_name& n)
{
    if (n.variable_group_name.empty()) return pbt::cat(pbt::quote(n.entity_name), ".", pbt::quote(n.variable_name));
    return pbt::cat(pbt::quote(n.entity_name), ".", pbt::quote(n.variable_group_name), "[", n.variable_group_instance, "].", pbt::quote(n.variable_name), "[", n.variable_instance, "]");
}

/// Runs an edit that may be refused. Returns whether it was accepted; refusal must be of the right kind.
template<typename F>
bool attempt(const std::string& what, F f, std::string* message = nullptr)
{
    try {
        f();
        return true;
    } catch (const cosim::error& e) {
        PBT_REQUIRE("error-code", e.code() == cosim::make_error_code(cosim::errc::invalid_system_structure), what, " is refused with error code ", e.code().value(), " (", e.what(), ")");
        if (message) *message = e.what();
        return false;
    } catch (const std::exception& e) {
        pbt::fail("error-type", pbt::cat(what, " is refused with an exception which is not a cosim::error: ", e.what()));
    }
    return false;
}
} // namespace structure
#endif
