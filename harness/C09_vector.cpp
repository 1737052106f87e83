// C09: VariableVector against a plain list of index ranges.
#include "mc.h"

#include <tvm/Range.h>
#include <tvm/Space.h>
#include <tvm/Variable.h>
#include <tvm/VariableVector.h>

#include <map>
#include <memory>
#include <optional>
using namespace tvm;
using namespace mc;

namespace
{
struct V
{
  VariablePtr v;
  int root, start, size;
  bool sameRoot(const V & o) const { return root == o.root; }
  bool same(const V & o) const { return root == o.root && start == o.start && size == o.size; }
  bool contains(const V & o) const { return root == o.root && o.start >= start && o.start + o.size <= start + size; }
  bool intersects(const V & o) const { return root == o.root && start < o.start + o.size && o.start < start + size; }
};

struct W
{
  Ctx & c;
  std::vector<V> pool;
  std::map<int, std::vector<double>> mem;
  std::vector<std::unique_ptr<VariableVector>> vec;
  std::vector<std::vector<V>> mod;
  double next = 1;
  W(Ctx & c) : c(c) {}

  std::string show(const V & v) { return cat(v.v->name()); }
  int find(const std::vector<V> & l, const V & v)
  {
    for(size_t i = 0; i < l.size(); ++i)
      if(l[i].same(v)) return static_cast<int>(i);
    return -1;
  }
  int container(const std::vector<V> & l, const V & v)
  {
    for(size_t i = 0; i < l.size(); ++i)
      if(l[i].contains(v)) return static_cast<int>(i);
    return -1;
  }
  bool hits(const std::vector<V> & l, const V & v)
  {
    for(auto & x : l)
      if(x.intersects(v)) return true;
    return false;
  }
  /** 0 = already there, 1 = appended, 2 = refused */
  int madd(std::vector<V> & l, const V & v)
  {
    if(container(l, v) >= 0) return 0;
    if(hits(l, v)) return 2;
    l.push_back(v);
    return 1;
  }
  template<typename F>
  bool throws(F && f)
  {
    try
    {
      f();
    }
    catch(const std::exception &)
    {
      return true;
    }
    return false;
  }
  std::vector<double> concat(const std::vector<V> & l)
  {
    std::vector<double> r;
    for(auto & x : l)
      for(int i = 0; i < x.size; ++i) r.push_back(mem[x.root][static_cast<size_t>(x.start + i)]);
    return r;
  }
  void list(size_t k)
  {
    auto & a = *vec[k];
    auto & l = mod[k];
    c.check(a.numberOfVariables() == static_cast<int>(l.size()) && a.variables().size() == l.size(), "content",
            [&] { return cat("vector ", k, " has ", a.numberOfVariables(), " variables, expected ", l.size()); });
    int i = 0, n = 0;
    for(auto & x : a)
    {
      c.check(x.get() == l[static_cast<size_t>(i)].v.get() && a[i].get() == x.get(), "content", [&] { return cat("variable ", i, " of vector ", k, " is ", x->name()); });
      n += l[static_cast<size_t>(i)].size;
      ++i;
    }
    c.check(a.totalSize() == n, "size", [&] { return cat("total size ", a.totalSize(), " of vector ", k, ", expected ", n); });
  }
  void mappings(size_t k, int how)
  {
    auto & a = *vec[k];
    auto & l = mod[k];
    for(auto & p : pool)
    {
      int i = container(l, p), start = 0;
      for(int j = 0; j < i; ++j) start += l[static_cast<size_t>(j)].size;
      Range r;
      if(how && i < 0) continue; // exceptions are slow; checked by the other form
      bool t = throws([&] { r = how ? a.getMappingOf(*p.v) : p.v->getMappingIn(a); });
      auto what = [&] { return cat("mapping of ", p.v->name(), " in vector ", k, ": ", t ? "exception" : cat("{", r.start, ",", r.dim, "}"), ", expected ", i < 0 ? "exception" : cat("{", start + p.start - l[static_cast<size_t>(i)].start, ",", p.size, "}")); };
      c.check(t == (i < 0), "mapping", what);
      if(i >= 0) c.check(r == Range(start + p.start - l[static_cast<size_t>(i)].start, p.size), "mapping", what);
    }
  }
  void verify()
  {
    for(size_t k = 0; k < vec.size(); ++k)
    {
      auto & a = *vec[k];
      auto & l = mod[k];
      list(k);
      for(auto & p : pool)
      {
        c.check(a.contains(*p.v) == (container(l, p) >= 0), "contains", [&] { return cat("vector ", k, " contains ", p.v->name(), "?"); });
        if(p.size) c.check(a.intersects(*p.v) == hits(l, p), "intersects", [&] { return cat("vector ", k, " intersects ", p.v->name(), "?"); });
        c.check(a.indexOf(*p.v) == find(l, p), "indexOf", [&] { return cat("index of ", p.v->name(), " in vector ", k, " is ", a.indexOf(*p.v)); });
      }
      mappings(k, 0);
      mappings(k, 1);
      auto e = concat(l);
      auto & v = a.value();
      c.check(v.size() == static_cast<Eigen::Index>(e.size()), "value", [&] { return cat("size of the values of vector ", k); });
      for(size_t i = 0; i < e.size(); ++i) c.check(v[static_cast<Eigen::Index>(i)] == e[i], "value", [&] { return cat("component ", i, " of vector ", k, " is ", v[static_cast<Eigen::Index>(i)], ", expected ", e[i]); });
      c.check(throws([&] { a.remove(-1); }), "remove-index", "remove(-1) accepted");
      c.check(throws([&] { a.remove(a.numberOfVariables()); }), "remove-index", "remove(n) accepted");
      // time derivative
      bool same = true;
      VariableVector d = dot(a);
      c.check(d.numberOfVariables() == a.numberOfVariables(), "dot", [&] { return cat("dot has ", d.numberOfVariables(), " variables"); });
      for(int i = 0; i < d.numberOfVariables(); ++i) same = same && *d[i] == *dot(l[static_cast<size_t>(i)].v);
      c.check(same, "dot", [&] { return cat("time derivative of vector ", k); });
      for(auto & p : pool)
        for(int i = 0; i < p.size; ++i)
          c.check(p.v->value()[i] == mem[p.root][static_cast<size_t>(p.start + i)], "value", [&] { return cat("component ", i, " of ", p.v->name()); });
    }
  }
  void add(size_t k, const V & v, int how)
  {
    auto before = mod[k];
    int e = madd(mod[k], v);
    bool r = false;
    bool t = throws([&] {
      if(how == 0) r = vec[k]->add(v.v);
      else
      {
        int i = vec[k]->addAndGetIndex(v.v, false);
        r = i >= 0;
        int x = find(mod[k], v);
        c.check(e == 2 || i == x, "addAndGetIndex", [&] { return cat("addAndGetIndex(", v.v->name(), ") returned ", i, ", expected ", x); });
        if(x < 0) x = container(mod[k], v);
        i = vec[k]->addAndGetIndex(v.v, true);
        c.check(e == 2 || i == x, "addAndGetIndex", [&] { return cat("addAndGetIndex(", v.v->name(), ", true) returned ", i, ", expected ", x); });
      }
    });
    c.check(t == (e == 2), "add", [&] { return cat("adding ", v.v->name(), t ? " refused" : " accepted"); });
    if(how == 0 && !t) c.check(r == (e == 1), "add", [&] { return cat("add(", v.v->name(), ") returned ", r); });
  }
};

void fill(W & w, bool all)
{
  auto root = [&](int i, VariablePtr v) {
    w.mem[i].assign(static_cast<size_t>(v->size()), 0.);
    for(auto & d : w.mem[i]) d = w.next++;
    Eigen::VectorXd e(v->size());
    for(int k = 0; k < e.size(); ++k) e[k] = w.mem[i][static_cast<size_t>(k)];
    v->set(e);
  };
  VariablePtr x = Space(3).createVariable("x");
  root(0, x);
  w.pool.push_back({x, 0, 0, 3});
  w.pool.push_back({x->subvariable(Space(1), "x0"), 0, 0, 1});
  w.pool.push_back({x->subvariable(Space(2), "x12", Space(1)), 0, 1, 2});
  w.pool.push_back({x->subvariable(Space(2), "x12bis", Space(1)), 0, 1, 2});
  VariablePtr y = Space(2).createVariable("y");
  root(1, y);
  w.pool.push_back({y, 1, 0, 2});
  if(!all) return;
  w.pool.push_back({x->subvariable(Space(2), "x01"), 0, 0, 2});
  VariablePtr e = Space(0).createVariable("e");
  root(2, e);
  w.pool.push_back({e, 2, 0, 0});
  VariablePtr dx = dot(x);
  root(3, dx);
  w.pool.push_back({dx, 3, 0, 3});
}

void ops(Ctx & c, bool two, int maxDepth)
{
  W w(c);
  fill(w, !two);
  for(int k = 0; k < (two ? 2 : 1); ++k)
  {
    w.vec.push_back(std::make_unique<VariableVector>());
    w.mod.emplace_back();
  }
  int depth = 1 + c.choose(maxDepth), P = static_cast<int>(w.pool.size());
  for(int d = 0; d < depth; ++d)
  {
    size_t k = two ? static_cast<size_t>(c.choose(2)) : 0;
    auto & a = *w.vec[k];
    auto & l = w.mod[k];
    int adds = two ? 1 : 2;
    int op = c.choose((adds + 1) * P + (two ? 7 : 8));
    if(op < adds * P)
    {
      auto & v = w.pool[static_cast<size_t>(op % P)];
      c.step([&] { return cat("vector ", k, op / P == 0 ? ".add(" : ".addAndGetIndex(", w.show(v), ")"); });
      w.add(k, v, op / P);
      continue;
    }
    op -= adds * P;
    if(op < P)
    {
      auto & v = w.pool[static_cast<size_t>(op)];
      c.step([&] { return cat("vector ", k, ".remove(", w.show(v), ")"); });
      int i = w.find(l, v);
      bool r = a.remove(*v.v);
      c.check(r == (i >= 0), "remove", [&] { return cat("remove(", v.v->name(), ") returned ", r); });
      if(i >= 0) l.erase(l.begin() + i);
      continue;
    }
    op -= P;
    if(op == 0)
    {
      c.step([&] { return cat("vector ", k, ".clear()"); });
      a.clear();
      l.clear();
    }
    else if(op == 1)
    {
      c.step([&] { return cat("query the mappings in vector ", k); });
      w.mappings(k, 0);
    }
    else if(op == 2)
    {
      c.step([&] { return cat("vector ", k, ".set(values)"); });
      Eigen::VectorXd v(a.totalSize());
      int n = 0;
      for(auto & x : l)
        for(int i = 0; i < x.size && n < v.size(); ++i, ++n) v[n] = w.mem[x.root][static_cast<size_t>(x.start + i)] = w.next++;
      c.check(n == v.size(), "size", "total size");
      a.set(v);
    }
    else if(two && op <= 6)
    {
      size_t o = 1 - k;
      if(op == 3)
      {
        c.step([&] { return cat("vector ", k, " = vector ", o); });
        a = *w.vec[o];
        l = w.mod[o];
      }
      else if(op == 4)
      {
        c.step([&] { return cat("vector ", k, " = move of a copy of vector ", o); });
        VariableVector t(*w.vec[o]);
        a = std::move(t);
        l = w.mod[o];
      }
      else if(op == 5)
      {
        c.step([&] { return cat("vector ", k, ".add(vector ", o, ")"); });
        auto n = l;
        bool bad = false;
        for(auto & v : w.mod[o]) bad = bad || w.madd(n, v) == 2;
        bool t = w.throws([&] { a.add(*w.vec[o]); });
        c.check(t == bad, "add-vector", [&] { return cat("adding a vector ", t ? "refused" : "accepted"); });
        if(t)
        {
          // how much of the vector was added is not specified, but it must be a prefix and the vector must be consistent
          auto p = l;
          size_t i = 0;
          while(static_cast<int>(p.size()) != a.numberOfVariables() && i < w.mod[o].size()) w.madd(p, w.mod[o][i++]);
          n = p;
        }
        l = n;
      }
      else
      {
        c.step([&] { return cat("vector ", k, " replaced by one constructed from vectors ", k, " and ", o); });
        auto n = l;
        bool bad = false;
        for(auto & v : w.mod[o]) bad = bad || w.madd(n, v) == 2;
        std::unique_ptr<VariableVector> r;
        bool t = w.throws([&] { r = std::make_unique<VariableVector>(a, *w.vec[o]); });
        c.check(t == bad, "construct", [&] { return cat("construction ", t ? "refused" : "accepted"); });
        if(t) c.prune();
        w.vec[k] = std::move(r);
        l = n;
      }
    }
    else if(op == 3)
    {
      c.step([&] { return cat("vector ", k, ".setZero()"); });
      a.setZero();
      for(auto & x : l)
        for(int i = 0; i < x.size; ++i) w.mem[x.root][static_cast<size_t>(x.start + i)] = 0;
    }
    else if(op == 4)
    {
      c.step([&] { return cat("vector ", k, " = itself"); });
      const VariableVector & b = a;
      a = b;
    }
    else if(op == 5 || op == 6)
    {
      int i = op == 5 ? 0 : static_cast<int>(l.size()) - 1;
      if(l.empty() || (op == 6 && l.size() == 1)) c.prune();
      c.step([&] { return cat("vector ", k, ".remove(index ", i, ")"); });
      a.remove(i);
      l.erase(l.begin() + i);
    }
    else
    {
      c.step([&] { return cat("query with getMappingOf in vector ", k); });
      w.mappings(k, 1);
    }
  }
  w.verify();
  Hash s;
  for(auto & l : w.mod)
  {
    s.i(-1);
    for(auto & x : l) s.i(x.root).i(x.start).i(x.size);
  }
  c.state(s);
}

std::vector<Driver> drivers()
{
  return {{"one-vector", "one vector, 8 variables (sub-variables overlapping or not, equal sub-variables held by distinct objects, an empty variable, a derivative): every sequence of up to 4 (thorough: 5) operations among add, addAndGetIndex with both flags, remove by variable or index, clear, cached and direct mapping queries, set, setZero, self-assignment", [](Ctx & c) { ops(c, false, c.thorough ? 5 : 4); }, 3},
          {"two-vectors", "two vectors sharing 5 variables: every sequence of up to 4 (thorough: 5) operations including assignment, move, union and construction from several vectors", [](Ctx & c) { ops(c, true, c.thorough ? 5 : 4); }, 4}};
}
} // namespace
int main(int argc, char ** argv)
{
  return run(argc, argv, "C09", drivers(), {"moved-from vectors are not used again"});
}
