// Replays histories of bitset operations against plain sets of bits.
#include "common.hpp"
#include <algorithm>
#include <cassert>
#include <iostream>
#include <vector>
#include "utils/bitset.hpp"

static std::string prop;
struct S { bitset b; std::set<unsigned> m; unsigned cap = 4032; };
static std::string str(const std::set<unsigned>& s) { std::string r = "{"; unsigned n = 0; for (unsigned x : s) { if (n++ > 30) { r += " ..."; break; } r += " " + std::to_string(x); } return r + " }"; }
static std::string str(unsigned x) { return std::to_string(x); }
static bool is(const char* p) { return prop == p; }

// every bit of b, by get
static void contents(const S& x, Rng& r, const char* what, const std::set<unsigned>* hot = nullptr)
{
  if (x.b.capacity() != x.cap) fail(std::string(what) + ": capacity is " + str((unsigned)x.b.capacity()) + ", expected " + str(x.cap));
  auto one = [&](unsigned i) { if (x.b.get(i) != (x.m.count(i) > 0)) fail(std::string(what) + ": bit " + str(i) + " reads " + str(x.b[i]) + ", expected the set " + str(x.m)); };
  for (unsigned i : x.m) { one(i); if (i + 1 < x.cap) one(i + 1); if (i) one(i - 1); if (i + 64 < x.cap) one(i + 64); if (i >= 64) one(i - 64); if (i + 4032 < x.cap) one(i + 4032); if (i >= 4032) one(i - 4032); }
  if (hot) for (unsigned i : *hot) if (i < x.cap) one(i);
  if (r.chance(4)) for (unsigned i = 0; i < x.cap; i++) one(i);
  else for (int k = 0; k < 12; k++) one(r.below(x.cap));
}
static void iteration(const S& x)
{
  std::set<unsigned>::const_iterator e = x.m.begin();
  size_t n = 0;
  auto it = x.b.cbegin(); bool post = x.m.size() % 2;
  for (; it != x.b.cend(); ) {
    if (e == x.m.end()) fail("iteration goes on behind the last of " + str(x.m) + " with " + str(*it));
    if (*it != *e) fail("iteration yields " + str(*it) + " where " + str(*e) + " is next in " + str(x.m));
    if (!(it == it)) fail("an iterator differs from itself");
    if (post) { auto o = it++; if (*o != *e) fail("it++ does not return the old position " + str(*e)); } else ++it;
    ++e;
    if (++n > x.m.size() + 5) break;
  }
  if (e != x.m.end()) fail("iteration misses " + str(*e) + " of " + str(x.m));
  if (!(it == x.b.cend())) fail("the end is not the end");
}
static void summary(const S& x)
{
  if (x.b.count() != x.m.size()) fail("count() is " + str((unsigned)x.b.count()) + " for " + str(x.m));
  if (x.b.empty() != x.m.empty()) fail(std::string("empty() is ") + (x.b.empty() ? "true" : "false") + " for " + str(x.m));
}
static void relations(const S& x, const S& y)
{
  bool sub = std::includes(y.m.begin(), y.m.end(), x.m.begin(), x.m.end()), sup = std::includes(x.m.begin(), x.m.end(), y.m.begin(), y.m.end()), eq = x.m == y.m;
  std::vector<unsigned> in, di;
  std::set_intersection(x.m.begin(), x.m.end(), y.m.begin(), y.m.end(), std::back_inserter(in));
  std::set_difference(x.m.begin(), x.m.end(), y.m.begin(), y.m.end(), std::back_inserter(di));
  auto ck = [&](const char* n, bool got, bool want) { if (got != want) fail(std::string(n) + " is " + (got ? "true" : "false") + " for " + str(x.m) + " and " + str(y.m)); };
  ck("==", x.b == y.b, eq); ck("!=", x.b != y.b, !eq); ck("<=", x.b <= y.b, sub); ck(">=", x.b >= y.b, sup);
  ck("<", x.b < y.b, sub && !eq); ck(">", x.b > y.b, sup && !eq); ck("has_intersection", x.b.has_intersection(y.b), !in.empty()); ck("has_difference", x.b.has_difference(y.b), !di.empty());
}
static std::set<unsigned> apply(int op, const std::set<unsigned>& x, const std::set<unsigned>& y)
{
  std::set<unsigned> r;
  if (op == 0) std::set_intersection(x.begin(), x.end(), y.begin(), y.end(), std::inserter(r, r.end()));
  if (op == 1) std::set_union(x.begin(), x.end(), y.begin(), y.end(), std::inserter(r, r.end()));
  if (op == 2) std::set_symmetric_difference(x.begin(), x.end(), y.begin(), y.end(), std::inserter(r, r.end()));
  if (op == 3) std::set_difference(x.begin(), x.end(), y.begin(), y.end(), std::inserter(r, r.end()));
  return r;
}
static bitset binop(int op, const bitset& a, const bitset& b) { return op == 0 ? a & b : op == 1 ? a | b : op == 2 ? a ^ b : a - b; }
static void inplace(int op, bitset& a, const bitset& b) { if (op == 0) a &= b; else if (op == 1) a |= b; else if (op == 2) a ^= b; else a -= b; }
static const char* OPN[] = {"&", "|", "^", "-"};

int main(int argc, char** argv)
{
  prop = argc > 1 ? argv[1] : "B01";
  uint64_t seed = argc > 2 ? strtoull(argv[2], 0, 10) : 1;
  Budget bud(argc > 3 ? atof(argv[3]) : 4);
  capture();
  for (uint64_t it = 0; bud.left(); it++) {
    Rng r(seed * 7919 + it); hist_reset(); alarm(20);
    unsigned blocks = it % 3 == 0 ? 1 : 1 + r.below(it % 7 == 6 ? 6 : 4), cap = 4032 * blocks;
    unsigned K = 1 + (is("B01") || is("B05") ? r.below(2) : 1 + r.below(2));
    // candidate positions: few words, few bits, borders
    std::vector<unsigned> pool;
    unsigned np = 1 + r.below(it % 5 == 4 ? 60 : 8);
    for (unsigned k = 0; k < np; k++) {
      unsigned p = r.below(blocks + 1), o = r.chance(40) ? (r.chance(50) ? 62 : 0) : r.below(r.chance(50) ? 4 : 63), d = r.chance(50) ? (r.chance(50) ? 63 : 0) : r.below(r.chance(50) ? 3 : 64);
      if (r.chance(30) && !pool.empty()) { unsigned q = pool[r.below(pool.size())]; if (r.chance(50)) { p = q / 4032; o = (q / 64) % 63; } else { o = (q / 64) % 63; d = q % 64; } }
      pool.push_back(p * 4032 + o * 64 + d);
    }
    std::vector<S> v;
    for (unsigned k = 0; k < K; k++) {
      unsigned ask = r.chance(25) ? 0 : cap - r.below(r.chance(50) ? 2 : 4032);
      if (blocks > 1 && ask == 0) ask = cap;
      hist("b%u = bitset(%u)\n", k, ask);
      v.push_back({ask ? bitset(ask) : bitset(), {}, cap});
      if (is("B05")) { if (v[k].b.capacity() < ask) fail("the capacity does not reach the size"); S e{v[k].b, {}, (unsigned)v[k].b.capacity()}; contents(e, r, "a new bitset"); if (!v[k].b.empty() || v[k].b.count()) fail("a new bitset is not empty"); }
      if (v[k].b.capacity() != cap) { if (v[k].b.capacity() < ask) { if (is("B05")) fail("capacity"); } v[k].b.resize(cap); if (v[k].b.capacity() != cap) { v[k].cap = v[k].b.capacity(); cap = v[k].cap; } }
    }
    bool samecap = true; for (auto& x : v) if (x.b.capacity() != v[0].b.capacity()) samecap = false;
    unsigned len = 1 + r.below(it < 1500 ? 10 : it % 11 == 0 ? 150 : 30);
    std::set<unsigned> hot(pool.begin(), pool.end());
    for (unsigned s = 0; s < len; s++) {
      unsigned k = r.below(K), l = r.below(K); S& x = v[k];
      unsigned what = r.below(20);
      if (what < 11) {
        unsigned i = pool[r.below(pool.size())] % x.cap; bool on = r.chance(65); if (r.chance(8)) i = r.below(x.cap);
        hist("b%u.set(%u, %d)\n", k, i, on); x.b.set(i, on); if (on) x.m.insert(i); else x.m.erase(i);
      } else if (what == 11) { if (r.chance(40)) { hist("b%u.clear()\n", k); x.b.clear(); x.m.clear(); } }
      else if (what == 12) {
        if (!r.chance(is("B05") ? 90 : 30)) continue;
        unsigned n = r.chance(30) ? r.below(x.cap + 1) : x.cap + r.below(r.chance(50) ? 3 : 9000);
        if (n > 40000) continue;
        unsigned first = x.b.capacity();
        hist("resize all to %u\n", n);
        for (auto& y : v) {
          y.b.resize(n);
          if (is("B05") && y.b.capacity() < n) fail("resize(" + str(n) + ") leaves capacity " + str((unsigned)y.b.capacity()));
          if (is("B05") && y.b.capacity() < first) fail("resize shrinks the capacity");
          y.cap = y.b.capacity();
          if (is("B05") || is("B01")) contents(y, r, "after resize", &hot);
        }
      } else if (what < 18 && samecap && K > 1 && !is("B01") && !is("B05")) {
        int op = r.below(4); S& y = v[l];
        auto want = apply(op, x.m, y.m);
        if (is("B02")) {
          S z{binop(op, x.b, y.b), want, x.cap};
          hist("b%u %s b%u\n", k, OPN[op], l);
          contents(z, r, OPN[op], &hot); contents(x, r, "left operand afterwards", &hot); contents(y, r, "right operand afterwards", &hot);
          S q = x; inplace(op, q.b, y.b); q.m = want;
          hist("in place\n");
          contents(q, r, "in place", &hot);
          if (!(q.b == z.b)) fail("the in-place result differs from the other one");
          if (q.b.count() != want.size() || q.b.empty() != want.empty()) fail("the in-place result counts wrong bits");
          if (z.b.count() != want.size() || z.b.empty() != want.empty()) fail("the result counts wrong bits");
          iteration(z); iteration(q);
        }
        if (r.chance(60)) { hist("b%u %s= b%u\n", k, OPN[op], l); inplace(op, x.b, y.b); } else { hist("b%u = b%u %s b%u\n", k, k, OPN[op], l); x.b = binop(op, x.b, y.b); }
        x.m = want;
      } else if (what >= 18 && K > 1) { hist("b%u = b%u\n", k, l); v[k] = v[l]; }
      S& c = v[k];
      if (is("B01")) contents(c, r, "after the last operation", &hot);
      if (is("B02") && what >= 13) contents(c, r, "after the last operation", &hot);
      if (is("B03") && K > 1 && samecap) { for (auto& a : v) { relations(c, a); relations(a, c); } }
      if (is("B04")) { summary(c); iteration(c); }
      if (is("B05") && what == 12) summary(c);
    }
    if (it == 100) keep_sample();
    case_done();
  }
  return done();
}
