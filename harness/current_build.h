// Stands in for the header `scripts/gen-current-build.sh` generates, which is different each time, and which git ignores.
#ifndef CURRENT_BUILD_H
#define CURRENT_BUILD_H
#include <chrono>
#include <string>
#include <tuple>
#include <vector>
#include "/repo/port.h"
#include "/repo/typesystem/struct.h"
#include "/repo/typesystem/optional.h"
#include "/repo/bricks/strings/split.h"
namespace current {
namespace build {
constexpr static unsigned long kCurrentBuildHeaderUnixEpochSeconds = 1500000000;
constexpr static const char* kBuildDateTime = "Jul 14 2017, 02:40:00";
constexpr static const char* kGitCommit = "0000000000000000000000000000000000000000";
constexpr static const char* kGitBranch = "branch";
inline std::chrono::microseconds BuildTimestamp() { return std::chrono::microseconds(1500000000000000ll); }
CURRENT_STRUCT(BuildInfo) {
  CURRENT_FIELD(build_time, std::string, kBuildDateTime);
  CURRENT_FIELD(build_dir, std::string, "/build");
  CURRENT_FIELD(build_user, std::string, "user");
  CURRENT_FIELD(build_time_epoch_microseconds, std::chrono::microseconds, BuildTimestamp());
  CURRENT_FIELD(os, std::string, "os");
  CURRENT_FIELD(git_commit_hash, Optional<std::string>, std::string(kGitCommit));
  CURRENT_FIELD(git_dirty_files, Optional<std::vector<std::string>>, std::vector<std::string>());
  CURRENT_FIELD(git_branch, Optional<std::string>, std::string(kGitBranch));
  CURRENT_FIELD(compiler, Optional<std::string>, std::string("c++"));
  CURRENT_FIELD(compiler_flags, Optional<std::string>, std::string(""));
  CURRENT_FIELD(linker_flags, Optional<std::string>, std::string(""));
  CURRENT_FIELD(compiler_info, Optional<std::string>, std::string(""));
  auto AsTuple() const { return std::tie(build_time, build_dir, build_user, build_time_epoch_microseconds, os); }
  bool operator==(const BuildInfo& rhs) const { return AsTuple() == rhs.AsTuple(); }
  bool operator!=(const BuildInfo& rhs) const { return !operator==(rhs); }
};
}  // namespace build
}  // namespace current
#endif
