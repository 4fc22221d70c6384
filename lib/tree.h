// Reference shrink trees: enumeration of all small ordered trees and their realisation as Shrinkables.
#pragma once
#include "vc.h"
#include "rapidcheck/Shrinkable.h"
#include "rapidcheck/shrinkable/Create.h"
#include "rapidcheck/seq/Create.h"
#include <memory>
#include <set>
#include <vector>

namespace vt {

struct Tree {
  int id = 0;          // preorder number (or any value)
  int label = 0;
  std::vector<Tree> kids;
};

// Enumerates every ordered tree with at most `budget` nodes (budget is consumed).
inline Tree pickTree(int &budget, int &nextId) {
  Tree t;
  t.id = nextId++;
  budget--;
  while (budget > 0 && vc::pick(2) == 1) t.kids.push_back(pickTree(budget, nextId));
  return t;
}
inline Tree pickTree(int maxNodes) {
  int b = maxNodes, id = 0;
  return pickTree(b, id);
}
inline int count(const Tree &t) {
  int n = 1;
  for (auto &k : t.kids) n += count(k);
  return n;
}
template <typename F>
void visit(Tree &t, F f) {
  f(t);
  for (auto &k : t.kids) visit(k, f);
}
inline std::string show(const Tree &t) {
  std::string s = std::to_string(t.id);
  if (t.label) s += "/" + std::to_string(t.label);
  if (!t.kids.empty()) {
    s += "(";
    for (size_t i = 0; i < t.kids.size(); i++) s += (i ? " " : "") + show(t.kids[i]);
    s += ")";
  }
  return s;
}

// A Shrinkable with exactly this tree.
template <typename T, typename F>
rc::Shrinkable<T> realise(std::shared_ptr<const Tree> root, const Tree *t, F valueOf) {
  return rc::shrinkable::lambda(
      [root, t, valueOf] { return valueOf(*t); },
      [root, t, valueOf] {
        std::vector<rc::Shrinkable<T>> v;
        for (auto &k : t->kids) v.push_back(realise<T>(root, &k, valueOf));
        return rc::seq::fromContainer(std::move(v));
      });
}
template <typename T, typename F>
rc::Shrinkable<T> realise(const Tree &t, F valueOf) {
  auto p = std::make_shared<const Tree>(t);
  return realise<T>(p, p.get(), valueOf);
}
inline rc::Shrinkable<int> ids(const Tree &t) {
  return realise<int>(t, [](const Tree &x) { return x.id; });
}

// Reads back a shrinkable as a tree (bounded).
template <typename T>
Tree readBack(const rc::Shrinkable<T> &s, int &budget) {
  Tree t;
  t.id = static_cast<int>(s.value());
  if (--budget < 0) vc::fail("shrink tree larger than any expected tree");
  auto q = s.shrinks();
  while (auto k = q.next()) t.kids.push_back(readBack(*k, budget));
  return t;
}
inline bool same(const Tree &a, const Tree &b) {
  if (a.id != b.id || a.kids.size() != b.kids.size()) return false;
  for (size_t i = 0; i < a.kids.size(); i++)
    if (!same(a.kids[i], b.kids[i])) return false;
  return true;
}

} // namespace vt
