#include "utils/luby-counter.hpp"
napsat::luby_counter verif_force_instantiation;
