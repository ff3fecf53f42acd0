// Stand-in for a header of the SATSentinel submodule, which is not part of this checkout.
// The observer is an optional debugging aid: nothing is ever attached to the solver here, so no
// function below is called. The declarations only let the headers and sources of /repo be read and compiled.
#pragma once
#include "Sentinel-options.hpp"
#include <functional>
#include <string>
#include <vector>
namespace sentinel {
struct Tvar { unsigned value; Tvar(unsigned v = 0) : value(v) {} };
struct Tlit { unsigned value; Tlit(unsigned v = 0) : value(v) {} Tlit(Tvar v, bool p) : value(2 * v.value + p) {} };
struct Tclause { unsigned value; Tclause(unsigned v = 0) : value(v) {} };
struct Tlevel { unsigned value; Tlevel(unsigned v = 0) : value(v) {} };
struct SATSentinel {};
struct WatchInvariant { template <typename F> WatchInvariant(const std::string&, F, const std::string&) {} };
struct Tparser { template <typename F> Tparser(F) {} };
inline SATSentinel* create_sentinel(const Options&) { return nullptr; }
inline void delete_sentinel(SATSentinel*) {}
inline void add_watch_invariant(SATSentinel*, WatchInvariant*) {}
inline bool add_variable(SATSentinel*, Tvar) { return true; }
inline bool set_variable_alias(SATSentinel*, Tvar, std::string) { return true; }
inline bool add_clause(SATSentinel*, Tclause, const Tlit*, unsigned, bool) { return true; }
inline bool delete_clause(SATSentinel*, Tclause) { return true; }
inline bool shrink_clause(SATSentinel*, Tclause, Tlit) { return true; }
inline bool assign(SATSentinel*, Tlit, Tclause) { return true; }
inline bool unassign(SATSentinel*, Tlit) { return true; }
inline bool propagate(SATSentinel*, Tlit) { return true; }
inline bool unpropagate(SATSentinel*, Tlit) { return true; }
inline bool update_level(SATSentinel*, Tlit, Tlevel) { return true; }
inline bool update_reason(SATSentinel*, Tlit, Tclause) { return true; }
inline bool watch(SATSentinel*, Tclause, Tlit) { return true; }
inline bool unwatch(SATSentinel*, Tclause, Tlit) { return true; }
inline bool block(SATSentinel*, Tclause, Tlit, Tlit) { return true; }
inline bool lock_assumption(SATSentinel*, Tlit) { return true; }
inline bool unlock_assumption(SATSentinel*, Tlit) { return true; }
inline bool check_invariants(SATSentinel*) { return true; }
inline bool checkpoint(SATSentinel*) { return true; }
inline bool message(SATSentinel*, const std::string&, unsigned = 0) { return true; }
inline bool save_execution(SATSentinel*, std::string) { return true; }
inline bool load_execution(SATSentinel*, std::string) { return true; }
inline void set_command_parser(SATSentinel*, Tparser*) {}
template <typename F> inline void set_variable_detail_callback(SATSentinel*, F) {}
template <typename F> inline void set_clause_detail_callback(SATSentinel*, F) {}
}
