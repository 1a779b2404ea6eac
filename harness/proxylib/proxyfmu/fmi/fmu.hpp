// A stand-in for the proxyfmu client library, which is not available here: the
// interface that libcosim uses, with made-up models instead of a server.  It is
// written from the library's use in /repo and its documentation.
#ifndef PROXYFMU_FMI_FMU_HPP
#define PROXYFMU_FMI_FMU_HPP
#include <proxyfmu/fmi/model_description.hpp>
#include <proxyfmu/fmi/slave.hpp>
#include <proxyfmu/fs_portability.hpp>
#include <memory>
#include <string>
namespace proxyfmu::fmi
{
class fmu
{
public:
    virtual ~fmu() = default;
    [[nodiscard]] virtual const model_description& get_model_description() const = 0;
    virtual std::unique_ptr<slave> new_instance(const std::string& instanceName) = 0;
};
} // namespace proxyfmu::fmi
#endif
