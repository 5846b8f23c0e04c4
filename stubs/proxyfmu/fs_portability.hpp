#ifndef VERIF_STUB_PROXYFMU_FS
#define VERIF_STUB_PROXYFMU_FS
#include <filesystem>
namespace proxyfmu { namespace filesystem = std::filesystem; }
#endif
