// Part of a stand-in for the proxyfmu client library; see proxyfmu/fmi/fmu.hpp.
#ifndef PROXYFMU_FMI_MODEL_DESCRIPTION_HPP
#define PROXYFMU_FMI_MODEL_DESCRIPTION_HPP
#include <optional>
#include <string>
#include <variant>
#include <vector>
namespace proxyfmu::fmi
{
typedef unsigned int value_ref;

struct integer
{
    std::optional<int> start, min, max;
    std::optional<std::string> quantity;
};
struct real
{
    std::optional<double> start, min, max;
    std::optional<std::string> quantity;
};
struct string
{
    std::optional<std::string> start;
};
struct boolean
{
    std::optional<bool> start;
};
typedef std::variant<integer, real, string, boolean> type_attribute;

struct scalar_variable
{
    value_ref vr = 0;
    std::string name, description, variability, causality;
    type_attribute typeAttribute;
    [[nodiscard]] bool is_integer() const { return typeAttribute.index() == 0; }
    [[nodiscard]] bool is_real() const { return typeAttribute.index() == 1; }
    [[nodiscard]] bool is_string() const { return typeAttribute.index() == 2; }
    [[nodiscard]] bool is_boolean() const { return typeAttribute.index() == 3; }
};
typedef std::vector<scalar_variable> model_variables;

struct model_description
{
    std::string guid, author, version, fmiVersion, modelName, description, generationTool, generationDateAndTime, modelIdentifier;
    model_variables modelVariables;
};
} // namespace proxyfmu::fmi
#endif
