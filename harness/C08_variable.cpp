// C08: variables, derivatives and sub-variables against a model made of (root storage, order, slice).
#include "mc.h"

#include <tvm/Range.h>
#include <tvm/Space.h>
#include <tvm/Variable.h>

#include <map>
#include <memory>
#include <set>
using namespace tvm;
using namespace mc;

namespace
{
bool noShift(const tvm::Space & s) { return s.size() == 0 && s.rSize() == 0 && s.tSize() == 0; }

struct Root
{
  Space space{0};
  std::string name;
  std::map<int, std::vector<double>> val; // per order
};
/** What a handle denotes: object `obj` (a root or one sub-variable instance) at order `k` */
struct Obj
{
  std::shared_ptr<Root> root;
  bool sub = false;
  Space shift{0}, space{0};
  std::string name;
  std::map<int, const Variable *> at; // known addresses per order
  std::map<int, std::string> names;
  int ref = 0;
};
struct H
{
  VariablePtr v;
  std::shared_ptr<Obj> o;
  int k;
};
std::string dname(const std::string & n, int k) { return k == 0 ? n : cat("d", k == 1 ? std::string() : std::to_string(k), " ", n, " / dt", k == 1 ? std::string() : std::to_string(k)); }

struct M
{
  Ctx & c;
  std::vector<H> h;
  std::vector<std::shared_ptr<Obj>> rootObjs;
  double next = 1;
  int nsub = 0;
  M(Ctx & c) : c(c) {}
  static int start(const H & x) { return x.k == 0 ? x.o->shift.rSize() : x.o->shift.tSize(); }
  static int size(const H & x) { return x.k == 0 ? x.o->space.rSize() : x.o->space.tSize(); }
  static std::vector<double> & mem(const H & x)
  {
    auto & m = x.o->root->val;
    auto it = m.find(x.k);
    if(it == m.end()) it = m.emplace(x.k, std::vector<double>(static_cast<size_t>(x.k == 0 ? x.o->root->space.rSize() : x.o->root->space.tSize()), 0.)).first;
    return it->second;
  }
  std::string show(const H & x) { return cat("'", x.v->name(), "'"); }
  void push(VariablePtr v, std::shared_ptr<Obj> o, int k)
  {
    c.check(v != nullptr, "null", "null handle");
    auto it = o->at.find(k);
    if(it != o->at.end())
      c.check(it->second == v.get(), "identity", [&] { return cat("asking again for ", v->name(), " gave another object"); });
    o->at[k] = v.get();
    h.push_back({v, o, k});
  }
  std::shared_ptr<Obj> rootObj(const std::shared_ptr<Root> & r)
  {
    for(auto & x : rootObjs)
      if(x->root == r) return x;
    return nullptr;
  }
  void verify()
  {
    for(auto & x : h)
    {
      const Variable & v = *x.v;
      auto who = [&](const char * what) { return [&, what] { return cat(what, " of ", v.name(), " (order ", x.k, ", slice ", start(x), "+", size(x), ")"); }; };
      c.check(v.size() == size(x), "size", who("size"));
      c.check(v.derivativeNumber() == x.k, "order", who("order"));
      c.check(v.isBasePrimitive() == (x.k == 0), "order", who("isBasePrimitive"));
      c.check(v.space() == x.o->space, "space", who("space"));
      c.check(v.spaceShift() == x.o->shift, "space", who("spaceShift"));
      c.check(v.isEuclidean() == (x.k > 0 || x.o->space.isEuclidean()), "euclidean", who("isEuclidean"));
      c.check(v.isSubvariable() == x.o->sub && v.isSuperVariable() == !x.o->sub, "subvariable", who("isSubvariable"));
      c.check(v.subvariableRange() == Range(start(x), size(x)), "range", who("subvariableRange"));
      c.check(v.tSubvariableRange() == Range(x.o->shift.tSize(), x.o->space.tSize()), "range", who("tSubvariableRange"));
      auto & m = mem(x);
      for(int i = 0; i < size(x); ++i)
        c.check(v.value()[i] == m[static_cast<size_t>(start(x) + i)], "value", [&] { return cat("component ", i, " of ", v.name(), " reads ", v.value()[i], ", expected ", m[static_cast<size_t>(start(x) + i)]); });
      auto n = x.o->names.find(x.k);
      if(n != x.o->names.end()) c.check(v.name() == n->second, "name", [&] { return cat("named '", v.name(), "', expected '", n->second, "'"); });
      for(auto & y : h)
      {
        const Variable & u = *y.v;
        bool same = x.o->root == y.o->root && x.k == y.k;
        int a = start(x), b = a + size(x), p = start(y), q = p + size(y);
        auto pair = [&](const char * w) { return [&, w] { return cat(w, "(", v.name(), ", ", u.name(), ")"); }; };
        c.check(v.contains(u) == (same && p >= a && q <= b), "contains", pair("contains"));
        c.check(v.intersects(u) == (same && p < b && a < q), "intersects", pair("intersects"));
        c.check((v == u) == (same && a == p && b == q), "equality", pair("=="));
        c.check((v != u) == !(same && a == p && b == q), "equality", pair("!="));
        c.check(v.isSuperVariableOf(u) == (same && !x.o->sub && y.o->sub), "super", pair("isSuperVariableOf"));
        c.check(v.isDerivativeOf(u) == (x.o == y.o && x.k > y.k), "derivative", pair("isDerivativeOf"));
        c.check(v.isPrimitiveOf(u) == (x.o == y.o && x.k < y.k), "derivative", pair("isPrimitiveOf"));
      }
    }
  }
  void gc()
  {
    // a sub-variable object without handle may be destroyed: its address is no more meaningful
    for(auto & o : all)
    {
      auto p = o.lock();
      if(!p) continue;
      bool used = false;
      for(auto & x : h) used = used || x.o == p || (!p->sub && x.o->root == p->root);
      if(!used) p->at.clear();
    }
  }
  std::vector<std::weak_ptr<Obj>> all;
};
struct Slice
{
  Space space, shift;
};
const std::vector<Slice> & slices(bool manifold)
{
  static const std::vector<Slice> e = {{Space(1), Space(0)}, {Space(2), Space(1)}, {Space(1), Space(1)}, {Space(3), Space(0)}};
  static const std::vector<Slice> m = {{Space(1), Space(1)}, {Space(Space::Type::SO3), Space(2)}, {Space(2), Space(0)}, {Space(1) * Space(Space::Type::SO3), Space(1)}, {Space(1), Space(2) * Space(Space::Type::SO3)}};
  return manifold ? m : e;
}

void newRoot(M & m, bool manifold, const std::string & name)
{
  auto r = std::make_shared<Root>();
  r->space = manifold ? Space(2) * Space(Space::Type::SO3) * Space(1) : Space(3);
  r->name = name;
  auto o = std::make_shared<Obj>();
  o->root = r;
  o->space = r->space;
  o->name = name;
  for(int k = 0; k < 6; ++k) o->names[k] = dname(name, k);
  m.rootObjs.push_back(o);
  m.all.push_back(o);
  m.push(r->space.createVariable(name), o, 0);
  m.verify();
}

std::shared_ptr<Obj> makeSub(M & m, const H & x, const Slice & s, bool autoName, VariablePtr & out)
{
  auto o = std::make_shared<Obj>();
  o->root = x.o->root;
  o->sub = true;
  o->space = s.space;
  o->shift = x.o->shift * s.shift;
  if(autoName)
  {
    int a = o->shift.rSize(), t = o->shift.tSize();
    o->names[0] = cat(x.o->root->name, "[", a, ":", a + s.space.rSize() - 1, "]");
    for(int k = 1; k <= x.k; ++k) o->names[k] = cat(dname(x.o->root->name, k), "[", t, ":", t + s.space.tSize() - 1, "]");
    for(int k = x.k + 1; k < 6; ++k) o->names[k] = dname(o->names[0], k);
    out = noShift(s.shift) ? x.v->subvariable(s.space) : x.v->subvariable(s.space, s.shift);
  }
  else
  {
    std::string n = cat("s", m.nsub++);
    for(int k = 0; k < 6; ++k) o->names[k] = dname(n, k);
    out = noShift(s.shift) ? x.v->subvariable(s.space, n) : x.v->subvariable(s.space, n, s.shift);
  }
  m.all.push_back(o);
  return o;
}

void ops(Ctx & c, bool manifold, int depth, bool lifetime, int roots)
{
  M m(c);
  newRoot(m, manifold, "x");
  if(roots > 1) newRoot(m, !manifold, "y");
  depth = 1 + c.choose(depth);
  for(int d = 0; d < depth; ++d)
  {
    if(m.h.empty()) break;
    size_t i = static_cast<size_t>(c.choose(static_cast<int>(m.h.size())));
    H x = m.h[i];
    int nops = 6 + (lifetime ? 2 : 4) + (depth >= 4 && lifetime ? 1 : 2) * static_cast<int>(slices(manifold).size());
    int op = c.choose(nops);
    if(op == 0)
    {
      int n = 1 + c.choose(2);
      c.step([&] { return cat("dot(", m.show(x), ", ", n, ")"); });
      m.push(dot(x.v, n), x.o, x.k + n);
    }
    else if(op == 1)
    {
      c.step([&] { return cat(m.show(x), "->primitive<1>()"); });
      if(x.k == 0)
      {
        bool t = false;
        try
        {
          (void)x.v->primitive<1>();
        }
        catch(const std::exception &)
        {
          t = true;
        }
        c.check(t, "primitive-of-base", "primitive<1>() of a base variable accepted");
      }
      else
        m.push(x.v->primitive<1>(), x.o, x.k - 1);
    }
    else if(op == 2)
    {
      c.step([&] { return cat(m.show(x), "->basePrimitive()"); });
      if(x.k >= 2) m.push(x.v->primitive<2>(), x.o, x.k - 2);
      m.push(x.v->basePrimitive(), x.o, 0);
    }
    else if(op == 3)
    {
      c.step([&] { return cat(m.show(x), "->superVariable()"); });
      m.push(x.v->superVariable(), m.rootObj(x.o->root), x.k);
    }
    else if(op == 4)
    {
      c.step([&] { return cat(m.show(x), "->shared_from_this()"); });
      m.push(x.v->shared_from_this(), x.o, x.k);
    }
    else if(op == 5)
    {
      c.step([&] { return cat("set ", m.show(x)); });
      Eigen::VectorXd v(M::size(x));
      for(int k = 0; k < v.size(); ++k) v[k] = M::mem(x)[static_cast<size_t>(M::start(x) + k)] = m.next++;
      x.v->set(v);
    }
    else if(op == 6)
    {
      if(!lifetime)
      {
        c.step([&] { return cat(m.show(x), "->setZero()"); });
        for(int k = 0; k < M::size(x); ++k) M::mem(x)[static_cast<size_t>(M::start(x) + k)] = 0;
        x.v->setZero();
      }
      else
      {
        c.step([&] { return cat("release handle ", i, " on ", m.show(x)); });
        x.v.reset();
        m.h.erase(m.h.begin() + static_cast<long>(i));
        m.gc();
      }
    }
    else if(op == 7)
    {
      if(!lifetime)
      {
        int k = M::size(x) - 1;
        c.step([&] { return cat(m.show(x), "->set(", k, ", value)"); });
        x.v->set(k, m.next);
        M::mem(x)[static_cast<size_t>(M::start(x) + k)] = m.next++;
        bool t = false;
        try
        {
          x.v->set(M::size(x), 3.);
        }
        catch(const std::exception &)
        {
          t = true;
        }
        c.check(t, "out-of-range", "set() out of range accepted");
      }
      else
      {
        // keep only the handles of derivatives
        c.step("release every handle but this one");
        m.h.clear();
        m.h.push_back(x);
        m.gc();
      }
    }
    else if(!lifetime && op == 8)
    {
      int n = std::max(0, M::size(x) - 1);
      c.step([&] { return cat(m.show(x), "->set(1, ", n, ", values)"); });
      if(n == 0) c.prune();
      Eigen::VectorXd v(n);
      for(int k = 0; k < n; ++k) v[k] = M::mem(x)[static_cast<size_t>(M::start(x) + 1 + k)] = m.next++;
      x.v->set(1, n, v);
    }
    else if(!lifetime && op == 9)
    {
      // a duplicate is independent
      c.step([&] { return cat(m.show(x), "->duplicate()"); });
      auto r = std::make_shared<Root>();
      r->space = x.o->space;
      r->name = x.v->basePrimitive()->name() + "'";
      auto o = std::make_shared<Obj>();
      o->root = r;
      o->space = r->space;
      for(int k = 0; k < 6; ++k) o->names[k] = dname(r->name, k);
      m.rootObjs.push_back(o);
      m.all.push_back(o);
      std::vector<double> v(static_cast<size_t>(M::size(x)));
      for(int k = 0; k < M::size(x); ++k) v[static_cast<size_t>(k)] = M::mem(x)[static_cast<size_t>(M::start(x) + k)];
      m.push(x.v->duplicate(), o, x.k);
      M::mem(m.h.back()) = v;
    }
    else
    {
      int k = op - 6 - (lifetime ? 2 : 4);
      bool autoName = k >= static_cast<int>(slices(manifold).size());
      const Slice & s = slices(manifold)[static_cast<size_t>(k) % slices(manifold).size()];
      bool fits = s.space * s.shift <= x.o->space;
      c.step([&] { return cat(m.show(x), "->subvariable(", s.space.sizeAsString(), autoName ? ", auto name" : "", ", shift ", s.shift.sizeAsString(), ")"); });
      VariablePtr v;
      std::shared_ptr<Obj> o;
      bool t = false;
      try
      {
        o = makeSub(m, x, s, autoName, v);
      }
      catch(const std::exception &)
      {
        t = true;
      }
      c.check(t == !fits, "sub-size", [&] { return cat("sub-variable ", fits ? "refused" : "too large accepted"); });
      if(fits) m.push(v, o, x.k);
    }
  }
  m.verify();
  Hash s;
  for(auto & x : m.h)
  {
    s.i(x.k).i(M::start(x)).i(M::size(x));
    for(double v : M::mem(x)) s.d(v);
  }
  c.state(s);
}

std::vector<Driver> drivers()
{
  return {
      {"views", "every sequence of up to 4 (thorough: 5) operations (derivatives, primitives, super-variable, sub-variables named or not, values, duplicates) on any handle obtained so far, Euclidean variable", [](Ctx & c) { ops(c, false, c.thorough ? 5 : 4, false, 1); }, 4},
      {"lifetime", "every sequence of up to 4 (thorough: 5) operations including the release of any handle, or of all but one", [](Ctx & c) { ops(c, false, c.thorough ? 5 : 4, true, 1); }, 4},
      {"manifold", "variable in R2 x SO3 x R: every sequence of up to 3 (thorough: 4) operations", [](Ctx & c) { ops(c, true, c.thorough ? 4 : 3, c.flip(), 1); }, 4},
      {"two-roots", "two variables: every sequence of up to 3 (thorough: 4) operations", [](Ctx & c) { ops(c, false, c.thorough ? 4 : 3, c.flip(), 2); }, 4}};
}
} // namespace
int main(int argc, char ** argv)
{
  return run(argc, argv, "C08", drivers(), {"variables of size 3 (Euclidean) and (6,7,6) (R2 x SO3 x R)"});
}
