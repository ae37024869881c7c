#ifndef WODSIM_ABSL_USAGE_H_
#define WODSIM_ABSL_USAGE_H_
#include <string>
namespace absl { inline void SetProgramUsageMessage(const std::string&) {} }
#endif
