#ifndef VERIF_STUB_PROXYFMU_CLIENT
#define VERIF_STUB_PROXYFMU_CLIENT
#include <proxyfmu/fmi/fmu.hpp>
#include <proxyfmu/fs_portability.hpp>
#include <proxyfmu/remote_info.hpp>
#include <optional>
namespace proxyfmu { namespace client {
class proxy_fmu : public fmi::fmu {
public:
    explicit proxy_fmu(const filesystem::path& fmuPath, const std::optional<remote_info>& remote = std::nullopt);
    const fmi::model_description& get_model_description() const override;
    std::unique_ptr<fmi::slave> new_instance(const std::string& instanceName) override;
};
}}
#endif
