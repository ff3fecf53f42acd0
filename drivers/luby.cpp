// Replays the restart counter against the schedule computed from the property's text.
#include "common.hpp"
#include <vector>
#include "utils/luby-counter.hpp"
using namespace napsat;
struct Ref { // runs 1,1,2 / 1,1,2,4 / ... : after `left` more steps the counter must signal
  unsigned run = 1, pos = 0; unsigned long left = 1;
  bool step() {
    if (--left) return false;
    pos++; if (pos > run + 1) { run++; pos = 0; }
    left = pos == 0 ? 1 : 1ul << (pos - 1);
    return true;
  }
};
int main(int argc, char** argv)
{
  uint64_t seed = argc > 2 ? strtoull(argv[2], 0, 10) : 1;
  Budget b(argc > 3 ? atof(argv[3]) : 3);
  capture();
  for (uint64_t it = 0; b.left(); it++) {
    Rng r(seed * 7919 + it); hist_reset(); alarm(30);
    luby_counter c; unsigned rounds = it == 0 ? 1 : 1 + r.below(4);
    for (unsigned q = 0; q < rounds; q++) {
      if (q) { hist("reset()\n"); c.reset(); }
      Ref ref; unsigned long n = it == 0 ? 40000000ul : 1 + r.below(it % 3 ? 300 : 20000);
      hist("%lu x increment()\n", n);
      for (unsigned long i = 0; i < n; i++) {
        bool e = ref.step();
        if (c.increment() != e) fail("increment() number " + std::to_string(i + 1) + " after the last reset returns " + (e ? "false" : "true"));
      }
    }
    if (it == 5) keep_sample();
    case_done();
  }
  return done();
}
