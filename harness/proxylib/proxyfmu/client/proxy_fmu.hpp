// Part of a stand-in for the proxyfmu client library; see proxyfmu/fmi/fmu.hpp.
#ifndef PROXYFMU_CLIENT_PROXY_FMU_HPP
#define PROXYFMU_CLIENT_PROXY_FMU_HPP
#include <proxyfmu/fmi/fmu.hpp>
#include <proxyfmu/remote_info.hpp>
#include <optional>
namespace proxyfmu::client
{
class proxy_fmu : public fmi::fmu
{
public:
    explicit proxy_fmu(const filesystem::path& fmuPath, const std::optional<remote_info>& remote = std::nullopt);
    [[nodiscard]] const fmi::model_description& get_model_description() const override;
    std::unique_ptr<fmi::slave> new_instance(const std::string& instanceName) override;

private:
    std::string file_;
};
} // namespace proxyfmu::client
#endif
