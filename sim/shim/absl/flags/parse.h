#ifndef WODSIM_ABSL_PARSE_H_
#define WODSIM_ABSL_PARSE_H_
#include <stdio.h>

#include "absl/flags/flag.h"

namespace absl {
// --name=value, --name value, -name=value. An unknown flag or a value that
// does not parse ends the process with status 1, as the real library does.
inline std::vector<char*> ParseCommandLine(int argc, char* argv[]) {
  std::vector<char*> rest;
  bool flags = true;
  for (int i = 0; i < argc; ++i) {
    std::string a = argv[i];
    if (i == 0 || !flags || a.size() < 2 || a[0] != '-') { rest.push_back(argv[i]); continue; }
    if (a == "--") { flags = false; continue; }
    a = a.substr(a[1] == '-' ? 2 : 1);
    std::string v;
    size_t eq = a.find('=');
    bool has = eq != std::string::npos;
    if (has) { v = a.substr(eq + 1); a = a.substr(0, eq); }
    auto it = wodsim::Registry().find(a);
    if (it != wodsim::Registry().end() && !has && dynamic_cast<Flag<bool>*>(it->second) == nullptr) {
      if (i + 1 < argc) { v = argv[++i]; has = true; } else { it = wodsim::Registry().end(); }
    }
    if (it == wodsim::Registry().end() || !it->second->Parse(v)) {
      fprintf(stderr, "ERROR: bad flag '%s'\n", a.c_str());
      exit(1);
    }
  }
  return rest;
}
}  // namespace absl
#endif
