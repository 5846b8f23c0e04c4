#ifndef VERIF_STUB_PROXYFMU_RI
#define VERIF_STUB_PROXYFMU_RI
#include <string>
namespace proxyfmu {
class remote_info {
public:
    remote_info(const std::string& host, int port);
    std::string host() const;
    int port() const;
private:
    std::string host_;
    int port_;
};
}
#endif
