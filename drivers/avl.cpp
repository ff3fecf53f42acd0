// Replays histories of AVL tree operations against std::set<pair<key, data>>.
#include "common.hpp"
#include <vector>
#include <cassert>
#include <cmath>
#include <cstddef>
#include <algorithm>
#include <iostream>
#include <new>
#ifndef PUBLIC_ONLY
#define private public
#include "utils/partition.hpp"
#undef private
#else
#include "utils/partition.hpp"
#endif

static long g_live = 0;
void* operator new(size_t n) { g_live++; void* p = malloc(n ? n : 1); if (!p) abort(); return p; }
void operator delete(void* p) noexcept { if (p) g_live--; free(p); }
void operator delete(void* p, size_t) noexcept { if (p) g_live--; free(p); }

typedef std::set<std::pair<unsigned, uintptr_t>> Model;
static std::string prop;
static std::string str(unsigned k, uintptr_t d) { return "(" + std::to_string(k) + ", " + std::to_string(d) + ")"; }

#ifndef PUBLIC_ONLY
using Node = utils::AVLTree::AVLNode;
static unsigned walk(Node* n, std::vector<std::pair<unsigned, uintptr_t>>& out, unsigned depth)
{
  if (!n) return 0;
  if (depth > 200) fail("the tree is cyclic or unbalanced");
  unsigned l = walk(n->_left, out, depth + 1);
  out.push_back({n->_key, (uintptr_t)n->_data});
  unsigned r = walk(n->_right, out, depth + 1);
  if (prop == "A02") {
    if (l > r + 1 || r > l + 1) fail("the subtrees below " + str(n->_key, (uintptr_t)n->_data) + " have heights " + std::to_string(l) + " and " + std::to_string(r));
    if (n->_height != std::max(l, r) + 1) fail("the stored height of " + str(n->_key, (uintptr_t)n->_data) + " is " + std::to_string(n->_height) + ", its height is " + std::to_string(std::max(l, r) + 1));
  }
  return std::max(l, r) + 1;
}
#endif
static void check(utils::AVLTree& t, const Model& m)
{
#ifndef PUBLIC_ONLY
  if (prop == "A01" || prop == "A02") {
    std::vector<std::pair<unsigned, uintptr_t>> v;
    walk(t._root, v, 0);
    if (prop == "A02") {
      for (size_t i = 1; i < v.size(); i++) if (!(v[i - 1] < v[i])) fail("the nodes are out of order: " + str(v[i - 1].first, v[i - 1].second) + " comes before " + str(v[i].first, v[i].second));
    } else {
      std::sort(v.begin(), v.end());
      if (v != std::vector<std::pair<unsigned, uintptr_t>>(m.begin(), m.end())) {
        for (auto& e : m) if (!std::binary_search(v.begin(), v.end(), e)) fail("the pair " + str(e.first, e.second) + " is missing");
        fail("the tree holds pairs it should not hold, or holds a pair twice");
      }
    }
  }
#endif
  if (prop == "A02") {
    if (!t.is_balanced()) fail("is_balanced() is false");
    if (!t.is_bst()) fail("is_bst() is false");
  }
}
static void fit(utils::AVLTree& t, const Model& m, unsigned k)
{
  hist("find_best_fit(%u)\n", k);
  void* p = t.find_best_fit(k);
  auto it = m.lower_bound({k, 0});
  if (it == m.end()) { if (p) fail("find_best_fit returns " + std::to_string((uintptr_t)p) + " although no stored key is large enough"); return; }
  if (!m.count({it->first, (uintptr_t)p})) fail("find_best_fit returns " + std::to_string((uintptr_t)p) + ", which is not stored under the smallest sufficient key " + std::to_string(it->first));
}
int main(int argc, char** argv)
{
  prop = argc > 1 ? argv[1] : "A01";
  uint64_t seed = argc > 2 ? strtoull(argv[2], 0, 10) : 1;
  Budget b(argc > 3 ? atof(argv[3]) : 3);
  capture();
  for (uint64_t it = 0; b.left(); it++) {
    Rng r(seed * 1000003 + it);
    hist_reset();
    Model m;
    unsigned keys = 1 + r.below(it % 5 == 4 ? 200 : it % 3 == 2 ? 30 : 8), datas = 1 + r.below(it % 4 == 3 ? 12 : 3);
    unsigned len = 1 + r.below(it < 2000 ? 20 : it % 11 == 0 ? 400 : 60);
    unsigned base = r.chance(20) ? 4294967295u - keys : r.chance(20) ? 2147483648u - keys / 2 : 0;
    uintptr_t dbase = r.chance(25) ? ~(uintptr_t)0 - datas : r.chance(25) ? 0x7fffffffffffffffull - datas / 2 : r.chance(50) ? 8 : 0;
    unsigned mode = r.below(4), seq = r.below(keys);
    unsigned bias = 20 + r.below(60);
    alarm(20);
    long live0 = g_live; bool leak = false;
    {
      utils::AVLTree t;
      for (unsigned s = 0; s < len; s++) {
        unsigned k = mode == 0 ? base + (seq++ % keys) : mode == 1 ? base + keys - 1 - (seq++ % keys) : base + r.below(keys);
        uintptr_t d = dbase + r.below(datas);
        if (s == len / 2 && r.chance(30)) bias = 15;
        if (r.chance(bias)) {
          hist("insert(%u, %llu)\n", k, (unsigned long long)d);
          bool res = t.insert(k, (void*)d); bool exp = m.insert({k, d}).second;
          if (prop == "A01" && res != exp) fail("insert reports " + std::to_string(res));
        } else if (r.chance(80)) {
          if (!m.empty() && r.chance(75)) { auto i = m.begin(); std::advance(i, r.below(m.size())); k = i->first; d = i->second; }
          hist("remove(%u, %llu)\n", k, (unsigned long long)d);
          bool res = t.remove(k, (void*)d); bool exp = m.erase({k, d}) > 0;
          if (prop == "A01" && res != exp) fail("remove reports " + std::to_string(res));
        } else if (prop == "A03" || prop == "A04") {
          if (prop == "A03") fit(t, m, k); else t.find_best_fit(k);
        }
        check(t, m);
      }
      if (prop == "A03") for (unsigned q = 0; q < std::min(keys + 2, 40u); q++) fit(t, m, base + q);
      if (prop == "A01") {
        // what is stored can be removed, once
        if (r.chance(50)) for (auto& e : Model(m)) {
          hist("remove(%u, %llu)\n", e.first, (unsigned long long)e.second);
          if (!t.remove(e.first, (void*)e.second)) fail("a stored pair is not found");
          if (t.remove(e.first, (void*)e.second)) fail("a pair is removed twice");
          m.erase(e); check(t, m);
        }
      }
      hist("destruction\n");
      m.clear(); Model().swap(m);
    }
    leak = g_live != live0;
    if (prop == "A04" && leak) fail("after the destruction of the tree " + std::to_string(g_live - live0) + " allocations are left");
    if (it == 100) keep_sample();
    case_done();
  }
  return done();
}
