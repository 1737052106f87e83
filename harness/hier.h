// Hierarchical problems: what the solver must receive (shared by several checks).
#pragma once
#include "pipe_tasks.h"

#include <tvm/hint/Substitution.h>
#include <tvm/scheme/HierarchicalLeastSquares.h>
#include <tvm/solver/LexLSHierarchicalLeastSquareSolver.h>

using namespace pipe_;
using namespace mc;
using tvm::requirements::AnisotropicWeight;
using tvm::requirements::PriorityLevel;
using tvm::requirements::SolvingRequirements;
using tvm::requirements::Weight;
using HLS = tvm::scheme::HierarchicalLeastSquares;

namespace hier
{
namespace
{
struct Options
{
  bool feasible = false, damping = false, warm = false;
  std::string show() const { return cat(feasible ? "feasible first level" : "general first level", damping ? ", damping" : "", warm ? ", warm start" : ""); }
};
Options options(Ctx & c, bool all)
{
  Options o;
  o.feasible = c.flip();
  if(all)
  {
    o.damping = c.flip();
    o.warm = c.flip();
  }
  else
    switch(c.choose(2))
    {
      case 1: o.damping = o.warm = true;
    }
  c.step([&] { return o.show(); });
  return o;
}
std::unique_ptr<HLS> scheme(const Options & o)
{
  return std::make_unique<HLS>(tvm::solver::LexLSHLSSolverOptions().feasibleFirstLevel(o.feasible).warmStart(o.warm),
                               tvm::scheme::HierarchicalLeastSquaresOptions().autoDamping(o.damping));
}

/** l <= a.x <= u over the universe, up to the sign */
struct R
{
  Vec a;
  double l, u;
};
double clip(double v) { return v > INF ? oo : v < -INF ? -oo : v; }
R normal(Vec a, double l, double u)
{
  l = clip(l);
  u = clip(u);
  for(int i = 0; i < a.size(); ++i)
    if(a[i] != 0)
    {
      if(a[i] < 0) return {-a, -u, -l};
      break;
    }
  return {a, l, u};
}
bool close(double a, double b) { return a == b || std::abs(a - b) <= 1e-9 * (1 + std::abs(a) + std::abs(b)); }
bool same(const R & x, const R & y) { return (x.a - y.a).norm() < 1e-9 && close(x.l, y.l) && close(x.u, y.u); }
std::string show(const std::vector<R> & v)
{
  std::string s;
  for(auto & r : v) s += cat("\n      ", r.l, " <= [", r.a.transpose(), "] <= ", r.u);
  return s;
}

struct Expect
{
  std::vector<std::vector<R>> levels; // non-empty levels; of the first level: general rows only
  Vec xl, xu; // bounds
  bool hasBounds = false; // some task is a bound
  std::vector<bool> uses;
};

/** rows of a task which depend on one unknown each, distinct, of a single variable */
bool canBeBound(const Std & w, const Spec & s)
{
  int vars = 0, nu = 0, k = 0;
  bool diag = true;
  for(auto & v : w.vars)
  {
    int st = w.off.at(v.get());
    bool u = false;
    for(int i = 0; i < v->size(); ++i) u = u || s.uses[static_cast<size_t>(st + i)];
    vars += u;
  }
  for(bool u : s.uses) nu += u;
  for(int i = 0; i < w.N; ++i)
    if(s.uses[static_cast<size_t>(i)])
    {
      for(int r = 0; r < s.J.rows(); ++r)
        if((s.J(r, i) != 0) != (r == k)) diag = false;
      ++k;
    }
  return vars == 1 && diag && nu == s.J.rows();
}

Expect expect(const Std & w, const std::vector<Spec> & specs, const Options & o, const std::vector<bool> & asBound)
{
  Expect e;
  e.uses.assign(static_cast<size_t>(w.N), false);
  e.xl = Vec::Constant(w.N, -oo);
  e.xu = Vec::Constant(w.N, oo);
  std::map<int, std::vector<R>> lv;
  for(size_t k = 0; k < specs.size(); ++k)
  {
    auto & s = specs[k];
    for(size_t i = 0; i < s.uses.size(); ++i) e.uses[i] = e.uses[i] || s.uses[i];
    for(int r = 0; r < s.J.rows(); ++r)
    {
      Vec a = s.J.row(r).transpose();
      if(asBound[k])
      {
        e.hasBounds = true;
        int j = 0;
        while(a[j] == 0) ++j;
        double l = s.l[r] <= -INF ? -oo : s.l[r] / a[j], u = s.u[r] >= INF ? oo : s.u[r] / a[j];
        if(a[j] < 0)
        {
          l = s.u[r] >= INF ? -oo : s.u[r] / a[j];
          u = s.l[r] <= -INF ? oo : s.l[r] / a[j];
        }
        e.xl[j] = std::max(e.xl[j], l);
        e.xu[j] = std::min(e.xu[j], u);
        continue;
      }
      double f = std::sqrt(s.weight);
      if(s.aniso.size()) f *= std::sqrt(s.aniso[r]);
      double l = s.l[r] <= -INF ? -oo : f * s.l[r], u = s.u[r] >= INF ? oo : f * s.u[r];
      lv[s.priority].push_back(normal(f * a, l, u));
    }
  }
  if(o.damping)
  {
    std::vector<R> d;
    for(int i = 0; i < w.N; ++i)
      if(e.uses[static_cast<size_t>(i)]) d.push_back({Vec::Unit(w.N, i), 0, 0});
    lv[1000000] = d;
  }
  for(auto & l : lv) e.levels.push_back(l.second);
  bool first = lv.count(0);
  if(e.hasBounds && !first) e.levels.insert(e.levels.begin(), std::vector<R>());
  return e;
}

/** Compares the data of the back-end with what is expected. */
std::string compareLevels(const Std & w, const stub::Problem & p, const std::vector<int> & col, const Expect & e, const Options & o)
{
  std::vector<bool> uses(static_cast<size_t>(w.N), false);
  for(int j : col) uses[static_cast<size_t>(j)] = true;
  if(uses != e.uses) return "the unknowns of the solver are not those of the tasks";
  auto lift = [&](const Vec & a) {
    Vec v = Vec::Zero(w.N);
    for(int j = 0; j < p.n; ++j) v[col[static_cast<size_t>(j)]] += a[j];
    return v;
  };
  std::vector<std::vector<R>> lv;
  for(auto & l : p.levels)
  {
    if(l.empty()) continue;
    lv.emplace_back();
    for(auto & r : l) lv.back().push_back(normal(lift(r.a), r.l, r.u));
  }
  Vec xl = Vec::Constant(w.N, -oo), xu = Vec::Constant(w.N, oo);
  if(p.hasBounds)
    for(int j = 0; j < p.n; ++j)
    {
      xl[col[static_cast<size_t>(j)]] = clip(p.xl[j]);
      xu[col[static_cast<size_t>(j)]] = clip(p.xu[j]);
    }
  auto want = e.levels;
  bool boundsInFirst = e.hasBounds && !o.feasible;
  if(e.hasBounds && o.feasible)
  {
    if(!p.hasBounds) return "bounds are not in the level of the bounds";
    if(want[0].empty()) want.erase(want.begin());
  }
  else if(p.hasBounds && p.xl.maxCoeff() > -INF)
    return "unexpected level of bounds";
  if(lv.size() != want.size())
  {
    std::string s = cat(lv.size(), " levels with rows received, expected ", want.size());
    for(auto & l : lv) s += "\n    received level:" + show(l);
    return s;
  }
  for(size_t k = 0; k < lv.size(); ++k)
  {
    auto rest = lv[k];
    for(auto & r : want[k])
    {
      auto it = std::find_if(rest.begin(), rest.end(), [&](const R & x) { return same(x, r); });
      if(it == rest.end()) return cat("level ", k, " lacks the row", show({r}), "\n    received:", show(lv[k]));
      rest.erase(it);
    }
    if(k == 0 && boundsInFirst)
    {
      for(auto & r : rest)
      {
        int j = 0, nz = 0;
        for(int i = 0; i < w.N; ++i)
          if(r.a[i] != 0) ++nz, j = i;
        if(nz != 1) return cat("foreign row in the first level", show({r}));
        xl[j] = std::max(xl[j], r.l <= -INF ? -oo : r.l / r.a[j]);
        xu[j] = std::min(xu[j], r.u >= INF ? oo : r.u / r.a[j]);
      }
    }
    else if(!rest.empty())
      return cat("level ", k, " has foreign rows", show(rest));
  }
  for(int i = 0; i < w.N; ++i)
    if(!close(xl[i], e.xl[i]) || !close(xu[i], e.xu[i])) return cat("bounds of unknown ", i, ": [", xl[i], ", ", xu[i], "], expected [", e.xl[i], ", ", e.xu[i], "]");
  return "";
}

void solveAndCheck(Ctx & c, Std & w, tvm::LinearizedControlProblem & pb, HLS & s, const std::vector<Spec> & specs, const Options & o)
{
  mute();
  w.set(Eigen::Map<const Vec>(w.rest.data(), w.N));
  stub::Problem p;
  int calls = 0;
  stub::answer() = [&](const stub::Problem & q, Vec & x) {
    ++calls;
    p = q;
    x.resize(q.n);
    for(int i = 0; i < q.n; ++i) x[i] = 1000 + i;
    return true;
  };
  bool b = s.solve(pb);
  stub::answer() = nullptr;
  c.check(b, "status", "solve returned false although the solver succeeded");
  Vec v = w.get();
  if(specs.empty())
  {
    for(int i = 0; i < w.N; ++i) c.check(v[i] == w.rest[static_cast<size_t>(i)], "untouched", "an empty problem changes a variable");
    return;
  }
  c.check(calls == 1, "calls", [&] { return cat("the solver was called ", calls, " times"); });
  c.check(p.misuse.empty(), "misuse", [&] { return p.misuse; });
  std::vector<int> col(static_cast<size_t>(p.n), -1);
  for(int i = 0; i < w.N; ++i)
  {
    if(v[i] == w.rest[static_cast<size_t>(i)]) continue;
    int j = static_cast<int>(v[i]) - 1000;
    c.check(j >= 0 && j < p.n && v[i] == 1000 + j && col[static_cast<size_t>(j)] < 0, "answer", [&] { return cat("component ", i, " holds ", v[i]); });
    col[static_cast<size_t>(j)] = i;
  }
  for(int j : col) c.check(j >= 0, "answer", "a column of the solver is written to no variable");
  // a task of the first level that can be a bound may be given as a bound or as rows
  std::vector<size_t> maybe;
  for(size_t i = 0; i < specs.size(); ++i)
    if(specs[i].priority == 0 && canBeBound(w, specs[i])) maybe.push_back(i);
  std::string err;
  for(size_t m = 0; m < (size_t(1) << maybe.size()); ++m)
  {
    std::vector<bool> asBound(specs.size(), false);
    for(size_t i = 0; i < maybe.size(); ++i) asBound[maybe[i]] = !(m >> i & 1);
    std::string d = compareLevels(w, p, col, expect(w, specs, o, asBound), o);
    if(m == 0) err = d;
    if(d.empty())
    {
      err.clear();
      break;
    }
  }
  c.check(err.empty(), "data", [&] { return err; });
  Hash h;
  h.i(p.n).i(p.hasBounds).i(static_cast<int>(p.levels.size()));
  for(auto & l : p.levels)
  {
    h.i(-1);
    for(auto & r : l) h.m(r.a).d(r.l).d(r.u);
  }
  c.state(h);
}

} // namespace
} // namespace hier
