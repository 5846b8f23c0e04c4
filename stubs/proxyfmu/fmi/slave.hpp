#ifndef VERIF_STUB_PROXYFMU_SLAVE
#define VERIF_STUB_PROXYFMU_SLAVE
#include <memory>
#include <string>
#include <vector>
#include <optional>
#include <variant>
namespace proxyfmu { namespace fmi {
using value_ref = unsigned int;
struct integer { std::optional<int> start; };
struct real { std::optional<double> start; };
struct string { std::optional<std::string> start; };
struct boolean { std::optional<bool> start; };
struct scalar_variable {
    value_ref vr;
    std::string name, description, causality, variability, initial;
    std::variant<integer, real, string, boolean> typeAttribute;
    bool is_integer() const; bool is_real() const; bool is_string() const; bool is_boolean() const;
};
struct model_description {
    std::string guid, author, modelName, description, version;
    std::vector<scalar_variable> modelVariables;
};
class slave {
public:
    virtual const model_description& get_model_description() const = 0;
    virtual bool setup_experiment(double start = 0, double stop = 0, double tolerance = 0) = 0;
    virtual bool enter_initialization_mode() = 0;
    virtual bool exit_initialization_mode() = 0;
    virtual bool step(double current_time, double step_size) = 0;
    virtual bool reset() = 0;
    virtual bool terminate() = 0;
    virtual void freeInstance() = 0;
    virtual bool get_integer(const std::vector<value_ref>& vr, std::vector<int>& values) = 0;
    virtual bool get_real(const std::vector<value_ref>& vr, std::vector<double>& values) = 0;
    virtual bool get_string(const std::vector<value_ref>& vr, std::vector<std::string>& values) = 0;
    virtual bool get_boolean(const std::vector<value_ref>& vr, std::vector<bool>& values) = 0;
    virtual bool set_integer(const std::vector<value_ref>& vr, const std::vector<int>& values) = 0;
    virtual bool set_real(const std::vector<value_ref>& vr, const std::vector<double>& values) = 0;
    virtual bool set_string(const std::vector<value_ref>& vr, const std::vector<std::string>& values) = 0;
    virtual bool set_boolean(const std::vector<value_ref>& vr, const std::vector<bool>& values) = 0;
    virtual ~slave() = default;
};
}}
#endif
