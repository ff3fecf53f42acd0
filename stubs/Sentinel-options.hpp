// Stand-in for a header of the SATSentinel submodule, which is not part of this checkout.
#pragma once
#include <string>
#include <vector>
namespace sentinel {
struct Options {
  std::string commands_file;
  bool check_no_conflicts = false, check_trail_monotonicity = false, check_implied_levels = false, check_no_missed_implications = false,
       check_topological_order = false, check_assignment_coherence = false, check_weak_watched_literals = false, check_strong_watched_literals = false;
  Options() {}
  Options(const std::vector<std::string>&) {}
  static std::string get_help_text() { return ""; }
};
}
