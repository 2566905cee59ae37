// Stand-in for Bazel's runfiles library: paths are resolved under $MC_RUNFILES.
#ifndef MC_SHIM_RUNFILES_H_
#define MC_SHIM_RUNFILES_H_
#include <cstdlib>
#include <memory>
#include <string>
namespace bazel::tools::cpp::runfiles {
class Runfiles {
 public:
  static Runfiles *Create(const std::string &, std::string *error) {
    if (std::getenv("MC_RUNFILES") == nullptr) {
      *error = "no runfiles";
      return nullptr;
    }
    return new Runfiles;
  }
  std::string Rlocation(const std::string &path) const {
    return std::string(std::getenv("MC_RUNFILES")) + "/" + path;
  }
};
}  // namespace bazel::tools::cpp::runfiles
#endif  // MC_SHIM_RUNFILES_H_
