#ifndef VERIF_STUB_PROXYFMU_FMU
#define VERIF_STUB_PROXYFMU_FMU
#include <proxyfmu/fmi/slave.hpp>
#include <memory>
namespace proxyfmu { namespace fmi {
class fmu {
public:
    virtual const model_description& get_model_description() const = 0;
    virtual std::unique_ptr<slave> new_instance(const std::string& instanceName) = 0;
    virtual ~fmu() = default;
};
}}
#endif
