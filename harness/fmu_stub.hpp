// Stands in for FMU import, which needs the FMI Library (not available here):
// "imports" any file without looking at it, and keeps a record.
#ifndef FMU_STUB_HPP
#define FMU_STUB_HPP

#include <cosim/fmi/fmu.hpp>
#include <cosim/fmi/importer.hpp>

#include <functional>
#include <string>
#include <vector>

struct jm_callbacks
{
};

namespace fmu_stub
{
struct import_record
{
    std::string path;
    std::shared_ptr<cosim::file_cache> cache;
};
inline std::vector<import_record> imports;
inline std::vector<std::pair<std::string, std::string>> instances; // path, name
/// Gives the description of the FMU, or throws.
inline std::function<std::shared_ptr<const cosim::model_description>(const std::string&)> describe;

class fake_fmu : public cosim::fmi::fmu
{
public:
    fake_fmu(std::string path, std::shared_ptr<const cosim::model_description> md)
        : path_(std::move(path))
        , md_(std::move(md))
    { }
    cosim::fmi::fmi_version fmi_version() const override { return cosim::fmi::fmi_version::v2_0; }
    std::shared_ptr<const cosim::model_description> model_description() const override { return md_; }
    std::shared_ptr<cosim::fmi::slave_instance> instantiate_slave(std::string_view name) override
    {
        instances.emplace_back(path_, std::string(name));
        return nullptr;
    }
    std::shared_ptr<cosim::fmi::importer> importer() const override { return nullptr; }

private:
    std::string path_;
    std::shared_ptr<const cosim::model_description> md_;
};
} // namespace fmu_stub

namespace cosim::fmi
{
inline std::map<const importer*, std::shared_ptr<file_cache>>& stub_caches()
{
    static std::map<const importer*, std::shared_ptr<file_cache>> m;
    return m;
}

importer::importer(std::shared_ptr<file_cache> cache)
    : fileCache_(std::move(cache))
    , handle_(nullptr, [](fmi_import_context_t*) {})
{ }

std::shared_ptr<importer> importer::create(std::shared_ptr<file_cache> cache)
{
    return std::shared_ptr<importer>(new importer(std::move(cache)));
}

std::shared_ptr<fmu> importer::import(const cosim::filesystem::path& p)
{
    fmu_stub::imports.push_back({p.string(), fileCache_});
    return std::make_shared<fmu_stub::fake_fmu>(p.string(), fmu_stub::describe(p.string()));
}
} // namespace cosim::fmi
#endif
