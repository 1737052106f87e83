// C10: counted sets of ranges and of variables against plain per-index counters.
#include "mc.h"

#include <tvm/Range.h>
#include <tvm/Space.h>
#include <tvm/Variable.h>
#include <tvm/VariableVector.h>
#include <tvm/internal/RangeCounting.h>
#include <tvm/internal/VariableCountingVector.h>
#include <tvm/internal/VariableVectorPartition.h>

#include <map>
#include <memory>
#include <set>
using namespace tvm;
using namespace mc;
using tvm::internal::RangeCounting;
using tvm::internal::VariableCountingVector;

namespace
{
/** Reference: how many times each index is present */
struct Count
{
  std::vector<int> n;
  std::set<int> ends;       // every endpoint used since creation
  std::vector<Range> active; // adds not removed (when removals match adds)
  bool removed = false, matched = true;
  int adds = 0;
  explicit Count(int N = 0) : n(static_cast<size_t>(N), 0) {}
  void count(const Range & r, int k)
  {
    for(int i = r.start; i < r.end(); ++i) n[static_cast<size_t>(i)] += k;
  }
  bool add(const Range & r)
  {
    if(!r.dim) return false;
    auto before = merged();
    ends.insert(r.start);
    ends.insert(r.end());
    active.push_back(r);
    ++adds;
    count(r, 1);
    return merged() != before;
  }
  bool canRemove(const Range & r) const
  {
    for(int i = r.start; i < r.end(); ++i)
      if(i >= static_cast<int>(n.size()) || n[static_cast<size_t>(i)] == 0) return false;
    return true;
  }
  bool remove(const Range & r)
  {
    auto before = merged();
    ends.insert(r.start);
    ends.insert(r.end());
    removed = true;
    bool f = false;
    for(size_t i = 0; i < active.size() && !f; ++i)
      if(active[i] == r)
      {
        active.erase(active.begin() + static_cast<long>(i));
        f = true;
      }
    matched = matched && f;
    count(r, -1);
    return merged() != before;
  }
  std::vector<Range> merged() const
  {
    std::vector<Range> r;
    for(int i = 0; i < static_cast<int>(n.size()); ++i)
    {
      if(!n[static_cast<size_t>(i)]) continue;
      if(!r.empty() && r.back().end() == i) r.back().dim++;
      else r.push_back({i, 1});
    }
    return r;
  }
  int max() const
  {
    int m = 0;
    for(int i : n) m = std::max(m, i);
    return m;
  }
  bool empty() const { return max() == 0; }
  /** What is wrong with this split representation? */
  std::string splitError(const std::vector<Range> & s) const
  {
    std::vector<int> seen(n.size(), 0);
    int last = -1;
    std::set<int> cuts;
    for(auto & r : s)
    {
      if(r.dim <= 0 || r.start < last) return "not sorted and disjoint";
      last = r.end();
      cuts.insert(r.start);
      cuts.insert(r.end());
      for(int i = r.start; i < r.end(); ++i)
      {
        if(i >= static_cast<int>(n.size())) return "out of the added ranges";
        seen[static_cast<size_t>(i)]++;
        if(n[static_cast<size_t>(i)] != n[static_cast<size_t>(r.start)]) return cat("piece {", r.start, ",", r.dim, "} has parts with different counts");
      }
    }
    for(size_t i = 0; i < n.size(); ++i)
      if((seen[i] > 0) != (n[i] > 0)) return cat("index ", i, n[i] ? " missing" : " present although not added");
    for(int k : cuts)
      if(!ends.count(k)) return cat("split at ", k, ", which is no limit of anything added");
    if(matched)
      for(auto & r : active)
        if(!cuts.count(r.start) || !cuts.count(r.end())) return cat("{", r.start, ",", r.dim, "} was added and not removed, but is not isolated");
    return "";
  }
};
std::string show(const std::vector<Range> & v)
{
  std::string s;
  for(auto & r : v) s += cat("{", r.start, ",", r.dim, "} ");
  return s;
}
template<typename F>
bool throws(F && f)
{
  try
  {
    f();
  }
  catch(const std::exception &)
  {
    return true;
  }
  return false;
}

void verifyRanges(Ctx & c, RangeCounting & r, const Count & m, int form)
{
  auto e = m.merged();
  if(form == 1)
  {
    auto s = r.ranges(true);
    auto err = m.splitError(s);
    c.check(err.empty(), "split", [&] { return cat("ranges(true) = ", show(s), ": ", err); });
  }
  else
  {
    auto g = r.ranges(false);
    c.check(g == e, "ranges", [&] { return cat("ranges() = ", show(g), ", expected ", show(e)); });
  }
  c.check(r.maxCount() == m.max(), "maxCount", [&] { return cat("maxCount ", r.maxCount(), ", expected ", m.max()); });
  c.check(r.empty() == m.empty(), "empty", [&] { return cat("empty() is ", r.empty()); });
}

void ranges(Ctx & c, int N, int maxDepth)
{
  std::vector<Range> all;
  for(int s = 0; s < N; ++s)
    for(int d = 1; s + d <= N; ++d) all.push_back({s, d});
  all.push_back({1, 0});
  RangeCounting r;
  Count m(N);
  int depth = 1 + c.choose(maxDepth);
  int query = c.choose(3); // none, ranges(false), ranges(true) after each operation
  for(int i = 0; i < depth; ++i)
  {
    int k = c.choose(2 * static_cast<int>(all.size()));
    const Range & g = all[static_cast<size_t>(k) % all.size()];
    if(k < static_cast<int>(all.size()))
    {
      c.step([&] { return cat("add {", g.start, ",", g.dim, "}"); });
      bool e = m.add(g), b = r.add(g);
      c.check(e == b, "add-return", [&] { return cat("add({", g.start, ",", g.dim, "}) returned ", b); });
    }
    else
    {
      c.step([&] { return cat("remove {", g.start, ",", g.dim, "}"); });
      bool ok = m.canRemove(g), b = false;
      bool t = throws([&] { b = r.remove(g); });
      c.check(t == !ok, "remove-refused", [&] { return cat("remove({", g.start, ",", g.dim, "}) ", t ? "refused" : "accepted"); });
      if(!ok) continue;
      if(g.dim)
      {
        bool e = m.remove(g);
        c.check(e == b, "remove-return", [&] { return cat("remove({", g.start, ",", g.dim, "}) returned ", b); });
      }
      else
        c.check(!b, "remove-return", "removing an empty range changed something");
    }
    if(query) verifyRanges(c, r, m, query - 1);
  }
  verifyRanges(c, r, m, 1);
  verifyRanges(c, r, m, 0);
  verifyRanges(c, r, m, 1);
  verifyRanges(c, r, m, 0);
  Hash s;
  for(int i : m.n) s.i(i);
  c.state(s);
}

struct P
{
  VariablePtr v;
  int root;
  Range r;
};
struct World
{
  std::vector<VariablePtr> roots;
  std::vector<P> pool;
};
World world(int kind)
{
  World w;
  auto sub = [&](int i, int size, const std::string & n, int start) {
    auto & x = w.roots[static_cast<size_t>(i)];
    w.pool.push_back({x->subvariable(Space(size), n, Space(start)), i, {start, size}});
  };
  if(kind == 0)
  {
    w.roots = {Space(3).createVariable("x"), Space(2).createVariable("y")};
    w.pool.push_back({w.roots[0], 0, {0, 3}});
    sub(0, 1, "x0", 0);
    sub(0, 2, "x12", 1);
    sub(0, 2, "x01", 0);
    w.pool.push_back({w.roots[1], 1, {0, 2}});
    sub(1, 1, "y1", 1);
  }
  else
  {
    // manifold variable: R x SO3 x R (the model counts in the 5 coordinates of the tangent space), and its derivative
    Space s = Space(1) * Space(Space::Type::SO3) * Space(1);
    w.roots = {s.createVariable("m")};
    w.roots.push_back(dot(w.roots[0]));
    for(int i = 0; i < 2; ++i)
    {
      auto & x = w.roots[static_cast<size_t>(i)];
      w.pool.push_back({x, i, {0, 5}});
      w.pool.push_back({x->subvariable(Space(1), "m0"), i, {0, 1}});
      w.pool.push_back({x->subvariable(Space(Space::Type::SO3), "mR", Space(1)), i, {1, 3}});
      if(i == 0) w.pool.push_back({x->subvariable(Space(Space::Type::SO3) * Space(1), "mR1", Space(1)), i, {1, 4}});
    }
  }
  return w;
}
/** Position of a variable in the tangent space of its super-variable */
Range pos(const Variable & v) { return v.tSubvariableRange(); }

void verifyVector(Ctx & c, VariableCountingVector & a, const std::vector<VariablePtr> & roots, const std::vector<Count> & m, bool split)
{
  auto & vars = a.variables();
  std::vector<std::vector<Range>> got(m.size());
  int last = -1;
  for(auto & v : vars)
  {
    int root = -1;
    for(size_t i = 0; i < roots.size(); ++i)
      if(v->superVariable() == roots[i]) root = static_cast<int>(i);
    c.check(root >= 0, "variables", [&] { return cat("unknown variable ", v->name()); });
    c.check(root == last || got[static_cast<size_t>(root)].empty(), "grouping", [&] { return cat("the parts of ", v->superVariable()->name(), " are not consecutive"); });
    last = root;
    got[static_cast<size_t>(root)].push_back(pos(*v));
    c.check(!(pos(*v) == pos(*roots[static_cast<size_t>(root)])) || v == roots[static_cast<size_t>(root)], "whole", [&] { return cat("a copy of ", roots[static_cast<size_t>(root)]->name(), " stands for it"); });
  }
  for(size_t i = 0; i < m.size(); ++i)
  {
    auto e = m[i].merged();
    if(!split)
      c.check(got[i] == e, "variables", [&] { return cat("parts of variable ", i, ": ", show(got[i]), ", expected ", show(e)); });
    else
    {
      auto err = m[i].splitError(got[i]);
      c.check(err.empty(), "split-variables", [&] { return cat("parts of variable ", i, ": ", show(got[i]), ": ", err); });
    }
  }
  bool disj = true;
  for(auto & x : m) disj = disj && x.max() <= 1;
  c.check(a.isDisjointUnion() == disj, "isDisjointUnion", [&] { return cat("isDisjointUnion() is ", a.isDisjointUnion()); });
}

void counting(Ctx & c, int kind, int maxDepth)
{
  bool split = c.flip();
  World w = world(kind);
  VariableCountingVector a(split);
  std::vector<Count> m;
  std::vector<std::vector<Range>> firstAdds(w.roots.size());
  auto sizes = [&](size_t i) { return w.roots[i]->space().tSize(); };
  for(size_t i = 0; i < w.roots.size(); ++i) m.emplace_back(sizes(i));
  std::vector<std::vector<Range>> single(w.roots.size()); // ranges added when their part was absent
  int depth = 1 + c.choose(maxDepth), n = static_cast<int>(w.pool.size());
  auto doAdd = [&](const P & p) {
    size_t r = static_cast<size_t>(p.root);
    bool e = m[r].add(p.r);
    single[r].push_back(p.r);
    return e;
  };
  for(int d = 0; d < depth; ++d)
  {
    int op = c.choose(2 * n + (kind == 0 ? 4 : 2));
    if(op < n)
    {
      auto & p = w.pool[static_cast<size_t>(op)];
      c.step([&] { return cat("add ", p.v->name()); });
      bool e = doAdd(p), b = a.add(p.v);
      c.check(b == e, "add-return", [&] { return cat("add(", p.v->name(), ") returned ", b); });
    }
    else if(op < 2 * n)
    {
      auto & p = w.pool[static_cast<size_t>(op - n)];
      c.step([&] { return cat("remove ", p.v->name()); });
      auto & x = m[static_cast<size_t>(p.root)];
      bool ok = x.canRemove(p.r), b = false;
      bool t = throws([&] { b = a.remove(*p.v); });
      c.check(t == !ok, "remove-refused", [&] { return cat("remove(", p.v->name(), ") ", t ? "refused" : "accepted"); });
      if(ok)
      {
        bool e = x.remove(p.r);
        c.check(b == e, "remove-return", [&] { return cat("remove(", p.v->name(), ") returned ", b); });
        if(x.empty())
        {
          single[static_cast<size_t>(p.root)].clear();
          x = Count(static_cast<int>(x.n.size()));
        }
      }
    }
    else if(op == 2 * n)
    {
      c.step("query the variables");
      verifyVector(c, a, w.roots, m, split);
    }
    else if(op == 2 * n + 1)
    {
      c.step("clear");
      a.clear();
      for(size_t i = 0; i < m.size(); ++i)
      {
        m[i] = Count(sizes(i));
        single[i].clear();
      }
    }
    else if(op == 2 * n + 2)
    {
      c.step("add the vector {x0, y}, remove the vector {y}");
      VariableVector b{w.pool[1].v, w.pool[4].v}, y{w.pool[4].v};
      a.add(b);
      doAdd(w.pool[1]);
      doAdd(w.pool[4]);
      a.remove(y);
      m[1].remove(w.pool[4].r);
      if(m[1].empty())
      {
        single[1].clear();
        m[1] = Count(sizes(1));
      }
    }
    else
    {
      c.step("destroy the variable x if it is not in the vector, and create another one");
      if(!m[0].empty()) c.prune();
      std::vector<P> keep;
      for(auto & p : w.pool)
        if(p.root != 0) keep.push_back(p);
      World f = world(0);
      auto y = w.roots[1];
      for(auto & p : keep) p.v = p.v;
      w.roots[0] = f.roots[0];
      std::vector<P> np;
      for(auto & p : f.pool)
        if(p.root == 0) np.push_back(p);
      for(auto & p : keep) np.push_back(p);
      w.pool = np;
      w.roots[1] = y;
    }
  }
  verifyVector(c, a, w.roots, m, split);
  bool t = throws([&] { (void)a.simple(); });
  c.check(t == split, "simple", "simple() on a split vector");
  if(!split)
  {
    auto s = a.simple();
    auto & v = a.variables();
    c.check(static_cast<int>(s.size()) == v.numberOfVariables(), "simple", "size of simple()");
    for(int i = 0; i < v.numberOfVariables(); ++i)
    {
      size_t r = v[i]->superVariable() == w.roots[0] ? 0 : 1;
      bool possible = false;
      for(auto & x : single[r]) possible = possible || x == pos(*v[i]);
      c.check(!s[static_cast<size_t>(i)] || possible, "simple", [&] { return cat(v[i]->name(), " is declared simple although it was never added as such"); });
      // first addition of all: certain
      bool certain = single[r].size() >= 1 && !m[r].removed && single[r][0] == pos(*v[i]) && m[r].merged().size() == 1;
      c.check(!certain || s[static_cast<size_t>(i)], "simple", [&] { return cat(v[i]->name(), " was added as a whole first, and is not declared simple"); });
    }
  }
  Hash h;
  for(auto & x : m)
    for(int i : x.n) h.i(i);
  c.state(h.i(split));
}

/** Iterating a list of variables according to a partition */
void partition(Ctx & c, int maxOther)
{
  VariablePtr x = Space(4).createVariable("x"), y = Space(2).createVariable("y");
  std::vector<P> pool;
  for(int s = 0; s < 4; ++s)
    for(int d = 1; s + d <= 4; ++d) pool.push_back({d == 4 ? x : x->subvariable(Space(d), cat("x", s, "+", d), Space(s)), 0, {s, d}});
  pool.push_back({y, 1, {0, 2}});
  pool.push_back({y->subvariable(Space(1), "y1", Space(1)), 1, {1, 1}});
  VariableCountingVector part(true);
  Count m[2] = {Count(4), Count(2)};
  VariableVector vec;
  std::vector<P> list;
  int n = c.choose(4);
  for(int i = 0; i < n; ++i)
  {
    auto & p = c.pick(pool);
    for(auto & q : list)
      if(q.root == p.root && q.r.intersects(p.r)) c.prune();
    list.push_back(p);
    vec.add(p.v);
    c.step([&] { return cat("iterate over ", p.v->name()); });
  }
  auto add = [&](const P & p) {
    part.add(p.v);
    m[p.root].add(p.r);
  };
  bool first = c.flip();
  if(first) part.add(vec);
  int o = c.choose(maxOther + 1);
  for(int i = 0; i < o; ++i)
  {
    auto & p = c.pick(pool);
    c.step([&] { return cat("partition also by ", p.v->name()); });
    add(p);
  }
  if(!first) part.add(vec);
  for(auto & p : list) m[p.root].add(p.r);
  std::vector<std::pair<int, Range>> e, g;
  for(auto & p : list)
  {
    int s = p.r.start;
    for(int i = p.r.start + 1; i <= p.r.end(); ++i)
      if(i == p.r.end() || m[p.root].ends.count(i))
      {
        e.push_back({p.root, {s, i - s}});
        s = i;
      }
  }
  tvm::internal::VariableVectorPartition it(vec, part);
  for(const auto & v : it)
  {
    g.push_back({v->superVariable() == x ? 0 : 1, v->subvariableRange()});
    c.check(g.size() <= e.size(), "partition", "too many pieces");
  }
  auto str = [](const std::vector<std::pair<int, Range>> & l) {
    std::string s;
    for(auto & p : l) s += cat(p.first ? "y" : "x", "{", p.second.start, ",", p.second.dim, "} ");
    return s;
  };
  c.check(e == g, "partition", [&] { return cat("pieces ", str(g), ", expected ", str(e)); });
}

std::vector<Driver> drivers()
{
  return {{"ranges", "every sequence of up to 4 additions/removals (thorough: 5) of all ranges within 0..4 (and the empty range), queried never, merged or split after each operation", [](Ctx & c) { ranges(c, 4, c.thorough ? 5 : 4); }, 4},
          {"ranges-wide", "every sequence of up to 3 additions/removals (thorough: 4) of all ranges within 0..6", [](Ctx & c) { ranges(c, 6, c.thorough ? 4 : 3); }, 4},
          {"ranges-deep", "every sequence of up to 6 additions/removals (thorough: 7) of all ranges within 0..2", [](Ctx & c) { ranges(c, 2, c.thorough ? 7 : 6); }, 4},
          {"variables", "every sequence of up to 5 (thorough: 6) additions, removals, queries, clear, re-creations of variables, on 6 overlapping (sub-)variables of two variables, split or not", [](Ctx & c) { counting(c, 0, c.thorough ? 6 : 5); }, 4},
          {"manifold", "the same on a variable in R x SO3 x R and its derivative, up to 4 (thorough: 5) operations", [](Ctx & c) { counting(c, 1, c.thorough ? 5 : 4); }, 4},
          {"partition", "iteration over every list of up to 3 disjoint (sub-)variables of x (4) and y (2), partitioned by every list of up to 2 (thorough: 3) other ones", [](Ctx & c) { partition(c, c.thorough ? 3 : 2); }, 4}};
}
} // namespace
int main(int argc, char ** argv)
{
  return run(argc, argv, "C10", drivers(), {"ranges within 0..6; variables of size 3 to 5"});
}
