// C21: direct evaluation of functions (UpdatelessFunction) and finite-difference checking of functions.
#include "mc.h"

#include <tvm/Variable.h>
#include <tvm/function/BasicLinearFunction.h>
#include <tvm/function/IdentityFunction.h>
#include <tvm/function/abstract/Function.h>
#include <tvm/graph/CallGraph.h>
#include <tvm/utils/UpdatelessFunction.h>
#include <tvm/utils/checkFunction.h>

#include <iostream>
#include <memory>

using namespace mc;
using namespace tvm;
using namespace tvm::utils;
using Eigen::MatrixXd;
using Eigen::VectorXd;

namespace
{
template<typename F>
bool throws(F f)
{
  try
  {
    f();
  }
  catch(const std::exception &)
  {
    return true;
  }
  return false;
}

enum Wrong
{
  Nothing,
  WJacobian,
  WVelocity,
  WNormalAcc
};

/** value_k = b_k + a_k.z + z'Q_k z/2, jacobian_k = c_k + P_k z, normal acceleration dz'R_k dz, JDot_k = R_k dz. */
struct Math
{
  VectorXd b;
  MatrixXd a, c;
  std::vector<MatrixXd> Q, P, R;
  VectorXd value(const VectorXd & z) const
  {
    VectorXd r = b + a * z;
    for(int k = 0; k < b.size(); ++k) r[k] += 0.5 * z.dot(Q[size_t(k)] * z);
    return r;
  }
  MatrixXd jacobian(const VectorXd & z) const
  {
    MatrixXd J = c;
    for(int k = 0; k < b.size(); ++k) J.row(k) += (P[size_t(k)] * z).transpose();
    return J;
  }
  VectorXd velocity(const VectorXd & z, const VectorXd & dz) const { return jacobian(z) * dz; }
  VectorXd normalAcc(const VectorXd & dz) const
  {
    VectorXd r(b.size());
    for(int k = 0; k < b.size(); ++k) r[k] = dz.dot(R[size_t(k)] * dz);
    return r;
  }
  MatrixXd JDot(const VectorXd & dz) const
  {
    MatrixXd J(b.size(), c.cols());
    for(int k = 0; k < b.size(); ++k) J.row(k) = (R[size_t(k)] * dz).transpose();
    return J;
  }
};

/** deterministic "generic" coefficients */
double coef(int i)
{
  static const double c[] = {1.5, -0.75, 2, 0.5, -1.25, 3, -0.375, 0.875, -2.5, 1.125, 0.25};
  return c[i % 11] + 0.125 * ((i * 7) % 5);
}

/** kind: 0 linear, 1 quadratic, 2 bilinear (products of different variables only), 3 constant normal part zero rows */
Math makeMath(int kind, int m, const std::vector<VariablePtr> & xs)
{
  int nr = 0, nt = 0;
  bool euclid = true;
  for(const auto & x : xs)
  {
    nr += x->size();
    nt += dot(x)->size();
    euclid = euclid && x->size() == dot(x)->size();
  }
  Math M;
  M.b.resize(m);
  M.a.resize(m, nr);
  M.c.resize(m, nt);
  for(int k = 0; k < m; ++k)
  {
    M.b[k] = coef(k + 3);
    for(int i = 0; i < nr; ++i) M.a(k, i) = coef(5 * k + i);
    for(int i = 0; i < nt; ++i) M.c(k, i) = euclid ? M.a(k, i) : coef(3 * k + 2 * i + 1);
    MatrixXd Q = MatrixXd::Zero(nr, nr), P = MatrixXd::Zero(nt, nr), R = MatrixXd::Zero(nt, nt);
    int si = 0;
    for(size_t i = 0; i < xs.size(); ++i)
    {
      int sj = 0;
      for(size_t j = 0; j < xs.size(); ++j)
      {
        for(int u = 0; u < xs[i]->size(); ++u)
          for(int v = 0; v < xs[j]->size(); ++v)
          {
            const int p = std::min(si + u, sj + v), q = std::max(si + u, sj + v);
            if(kind == 1 || (kind == 2 && i != j)) Q(si + u, sj + v) = coef(2 * p + 3 * q + k) * 0.5;
          }
        sj += xs[j]->size();
      }
      si += xs[i]->size();
    }
    if(euclid)
      P = R = Q;
    else if(kind)
    {
      for(int i = 0; i < nt; ++i)
      {
        for(int j = 0; j < nr; ++j) P(i, j) = coef(i + 2 * j + k);
        for(int j = 0; j < nt; ++j) R(i, j) = coef(i * j + k + i + j);
      }
    }
    M.Q.push_back(Q);
    M.P.push_back(P);
    M.R.push_back(R);
  }
  return M;
}

class Poly : public function::abstract::Function
{
public:
  SET_UPDATES(Poly, Value, Jacobian, Velocity, NormalAcceleration, JDot)
  Math M;
  Wrong wrong = Nothing;
  int wr = 0, wc = 0;
  double delta = 0;
  VectorXd only; // when not empty, the error shows at this value only

  Poly(const Math & math, const std::vector<VariablePtr> & xs) : Function(int(math.b.size())), M(math)
  {
    registerUpdates(Update::Value, &Poly::uV, Update::Jacobian, &Poly::uJ);
    registerUpdates(Update::Velocity, &Poly::uVel, Update::NormalAcceleration, &Poly::uNA);
    registerUpdates(Update::JDot, &Poly::uJD);
    addOutputDependency<Poly>(Output::Value, Update::Value);
    addOutputDependency<Poly>(Output::Jacobian, Update::Jacobian);
    addOutputDependency<Poly>(Output::Velocity, Update::Velocity);
    addOutputDependency<Poly>(Output::NormalAcceleration, Update::NormalAcceleration);
    addOutputDependency<Poly>(Output::JDot, Update::JDot);
    for(const auto & x : xs) addVariable(x, false);
    value_.setConstant(7e6);
    velocity_.setConstant(7e6);
    normalAcceleration_.setConstant(7e6);
  }
  VectorXd z() const
  {
    VectorXd r(M.a.cols());
    int s = 0;
    for(const auto & x : variables().variables())
    {
      r.segment(s, x->size()) = x->value();
      s += x->size();
    }
    return r;
  }
  VectorXd dz() const
  {
    VectorXd r(M.c.cols());
    int s = 0;
    for(const auto & x : variables().variables())
    {
      r.segment(s, dot(x)->size()) = dot(x)->value();
      s += dot(x)->size();
    }
    return r;
  }

private:
  bool on(Wrong w) const { return wrong == w && (only.size() == 0 || (z() - only).norm() < 1e-12); }
  void scatter(const MatrixXd & J, bool jdot)
  {
    int s = 0;
    for(const auto & x : variables().variables())
    {
      const int n = dot(x)->size();
      if(jdot)
        JDot_[x.get()] = J.middleCols(s, n);
      else
        jacobian_[x.get()] = J.middleCols(s, n);
      s += n;
    }
  }
  void uV() { value_ = M.value(z()); }
  void uJ()
  {
    MatrixXd J = M.jacobian(z());
    if(on(WJacobian)) J(wr, wc) += delta;
    scatter(J, false);
  }
  void uVel()
  {
    velocity_ = M.velocity(z(), dz());
    if(on(WVelocity)) velocity_[wr] += delta;
  }
  void uNA()
  {
    normalAcceleration_ = M.normalAcc(dz());
    if(on(WNormalAcc)) normalAcceleration_[wr] += delta;
  }
  void uJD() { scatter(M.JDot(dz()), true); }
};

/** Provides its value and Jacobian, but nothing else */
class Partial : public Poly
{
public:
  DISABLE_OUTPUTS(Output::Velocity, Output::NormalAcceleration, Output::JDot)
  using Poly::Poly;
};
class NoJac : public Poly
{
public:
  DISABLE_OUTPUTS(Output::Value, Output::Jacobian)
  using Poly::Poly;
};

struct World
{
  std::vector<VariablePtr> all; // every variable to be watched, with its derivatives
  std::vector<VariablePtr> xs;  // the variables of the function
  void watch(VariablePtr v)
  {
    auto d = dot(v), dd = dot(d);
    for(auto & x : {v, d, dd})
    {
      x->set(VectorXd::LinSpaced(x->size(), 0.125 * double(all.size()) + 0.25, double(all.size()) - 0.5));
      all.push_back(x);
    }
  }
};
const char * layouts[] = {"x2", "x2 y1", "x2 y1 w3", "q(SO3) y1", "part[1,3) of X4, y1", "w3 x2"};
World world(int l)
{
  World w;
  VariablePtr x = Space(2).createVariable("x");
  VariablePtr y = Space(1).createVariable("y");
  VariablePtr v = Space(3).createVariable("w");
  VariablePtr q = Space(Space::Type::SO3).createVariable("q");
  VariablePtr X = Space(4).createVariable("X");
  for(auto & p : {x, y, v, q, X}) w.watch(p);
  switch(l)
  {
    case 0:
      w.xs = {x};
      break;
    case 1:
      w.xs = {x, y};
      break;
    case 2:
      w.xs = {x, y, v};
      break;
    case 3:
      w.xs = {q, y};
      break;
    case 4:
      w.xs = {X->subvariable(Space(2), "part", Space(1)), y};
      break;
    case 5:
      w.xs = {v, x};
      break;
  }
  return w;
}

// ------------------------------------------------------------------ dispatch of run-time argument lists
struct Group // one variable, its value and possibly its velocity
{
  Variable * x = nullptr;
  VectorXd v[2];
  bool list[2] = {false, false};
};
typedef std::initializer_list<double> L;
template<typename F>
void withList(const VectorXd & v, F f)
{
#define A(i) v[i]
  switch(v.size())
  {
    case 1: { L l{A(0)}; return f(l); }
    case 2: { L l{A(0), A(1)}; return f(l); }
    case 3: { L l{A(0), A(1), A(2)}; return f(l); }
    case 4: { L l{A(0), A(1), A(2), A(3)}; return f(l); }
    case 5: { L l{A(0), A(1), A(2), A(3), A(4)}; return f(l); }
    case 6: { L l{A(0), A(1), A(2), A(3), A(4), A(5)}; return f(l); }
    default: throw std::logic_error("size of list");
  }
#undef A
}
/** Calls f with the arguments of groups g[I..n). Lists are used in the first two groups only. */
template<bool HasVar, int K, int I, typename F, typename... Args>
void dispatch(const std::vector<Group> & g, F & f, const Args &... args)
{
  if constexpr(I > 0)
  {
    if(I == int(g.size()))
    {
      f(args...);
      return;
    }
  }
  if constexpr(I < 3)
  {
    const Group & a = g[I];
    auto next = [&](const auto &... more) { dispatch<HasVar, K, I + 1>(g, f, args..., more...); };
    auto withVar = [&](const auto &... more) {
      if constexpr(HasVar)
        next(std::ref(*a.x), more...);
      else
        next(more...);
    };
    auto second = [&](const auto & first) {
      if constexpr(K == 1)
        withVar(first);
      else if constexpr(I < 2)
      {
        if(a.list[1])
          withList(a.v[1], [&](const L & l) { withVar(first, l); });
        else
          withVar(first, a.v[1]);
      }
      else
        withVar(first, a.v[1]);
    };
    if constexpr(I < 2)
    {
      if(a.list[0])
        withList(a.v[0], [&](const L & l) { second(l); });
      else
        second(a.v[0]);
    }
    else
      second(a.v[0]);
  }
}
template<typename T>
decltype(auto) unref(const T & t)
{ return (t); }
template<typename T>
T & unref(const std::reference_wrapper<T> & t)
{ return t.get(); }

const char * outs[] = {"value", "jacobian", "velocity", "normalAcceleration", "JDot"};

/** Calls the output o of uf with the groups. */
MatrixXd evaluate(const UpdatelessFunction & uf, int o, const Variable & wrt, const std::vector<Group> & g, bool hasVar)
{
  MatrixXd r;
  auto f1 = [&](const auto &... a) {
    if(o == 0)
      r = uf.value(unref(a)...);
    else
      r = uf.jacobian(wrt, unref(a)...);
  };
  auto f2 = [&](const auto &... a) {
    if(o == 2)
      r = uf.velocity(unref(a)...);
    else if(o == 3)
      r = uf.normalAcceleration(unref(a)...);
    else
      r = uf.JDot(wrt, unref(a)...);
  };
  if(o < 2)
    hasVar ? dispatch<true, 1, 0>(g, f1) : dispatch<false, 1, 0>(g, f1);
  else
    hasVar ? dispatch<true, 2, 0>(g, f2) : dispatch<false, 2, 0>(g, f2);
  return r;
}

VectorXd pool(int n, int k)
{
  VectorXd v(n);
  for(int i = 0; i < n; ++i) v[i] = coef(3 * k + 2 * i + 1) * (((k + i) % 3) ? 1 : -0.5);
  return v;
}

// ------------------------------------------------------------------------------------------------ evaluation
void evaluation(Ctx & c)
{
  const int l = c.choose(6);
  World w = world(l);
  const int m = 1 + c.choose(2);
  const int kind = c.choose(3);
  const Math M = makeMath(kind, m, w.xs);
  auto f = std::make_shared<Poly>(M, w.xs);
  auto byHand = std::make_shared<Poly>(M, w.xs);
  auto in = std::make_shared<graph::internal::Inputs>();
  typedef function::abstract::Function Fn;
  in->addInput(byHand, Fn::Output::Value, Fn::Output::Jacobian, Fn::Output::Velocity, Fn::Output::NormalAcceleration,
               Fn::Output::JDot);
  tvm::graph::CallGraph graph;
  graph.add(in);
  graph.update();
  UpdatelessFunction uf(f);
  c.step([&] { return cat("variables: ", layouts[l], ", kind ", kind, ", ", m, " row(s)"); });

  // the model: the values that the variables should have
  std::vector<VectorXd> model;
  for(const auto & v : w.all) model.push_back(v->value());
  const int n = int(w.xs.size());
  const int calls = (c.thorough ? 2 : n < 3 ? 2 : 1) + (c.thorough && n < 3 ? 1 : 0);
  int fresh = 0;
  for(int k = 0; k < calls; ++k)
  {
    const int o = c.choose(5);
    const int wrt = (o == 1 || o == 4) ? (k == 0 ? c.choose(n) : n - 1) : 0;
    const int K = o < 2 ? 1 : 2;
    const bool lists = k == 0;
    std::vector<Group> g;
    std::vector<int> target; // variable of each group
    bool hasVar = false;
    const int form = c.choose(n == 1 ? 2 : 3); // 0 positional, 1 by variable, 2 concatenated
    if(form == 0)
      for(int i = 0; i < n; ++i) target.push_back(i);
    else if(form == 1)
    {
      hasVar = true;
      const int len = 1 + c.choose(lists || n < 3 ? 3 : 2);
      for(int i = 0; i < len; ++i) target.push_back(c.choose(n));
    }
    if(form != 2)
    {
      for(size_t i = 0; i < target.size(); ++i)
      {
        Group a;
        const auto & x = w.xs[size_t(target[i])];
        a.x = x.get();
        a.v[0] = pool(x->size(), fresh++);
        a.v[1] = pool(dot(x)->size(), fresh++);
        if(lists && i < 2 && (i == 0 || form == 0 || c.thorough))
          for(int j = 0; j < K; ++j) a.list[j] = c.flip();
        g.push_back(a);
      }
    }
    else
    {
      Group a;
      int nr = 0, nt = 0;
      for(const auto & x : w.xs)
      {
        nr += x->size();
        nt += dot(x)->size();
      }
      a.v[0] = pool(nr, fresh++);
      a.v[1] = pool(nt, fresh++);
      if(lists)
        for(int j = 0; j < K; ++j) a.list[j] = c.flip();
      g.push_back(a);
    }
    c.step([&] {
      std::string s = cat(outs[o], "(");
      if(o == 1 || o == 4) s += cat("d/d", w.xs[size_t(wrt)]->name(), "; ");
      for(const auto & a : g)
      {
        if(hasVar) s += a.x->name() + ", ";
        for(int j = 0; j < K; ++j) s += cat(a.list[j] ? "{" : "[", a.v[j].transpose(), a.list[j] ? "} " : "] ");
      }
      return s + ")";
    });
    // model. A part of a variable is seen through its super variable.
    auto assign = [&](int i, const VectorXd & v, int order) {
      VariablePtr x = w.xs[size_t(i)];
      size_t idx = 0;
      int at = 0;
      if(l == 4 && i == 0)
      {
        idx = 12; // X
        at = 1;
      }
      else
        while(w.all[idx] != x) ++idx;
      model[idx + size_t(order)].segment(at, v.size()) = v;
    };
    auto expect = [&](int order) {
      VectorXd z;
      for(int i = 0; i < n; ++i)
      {
        VariablePtr x = w.xs[size_t(i)];
        size_t idx = 0;
        if(l == 4 && i == 0)
          idx = 12;
        else
          while(w.all[idx] != x) ++idx;
        const VectorXd & s = model[idx + size_t(order)];
        VectorXd p = (l == 4 && i == 0) ? VectorXd(s.segment(1, 2)) : s;
        VectorXd t(z.size() + p.size());
        t << z, p;
        z = t;
      }
      return z;
    };
    if(form == 2)
    {
      int s = 0, sd = 0;
      for(int i = 0; i < n; ++i)
      {
        const int ni = w.xs[size_t(i)]->size(), di = dot(w.xs[size_t(i)])->size();
        assign(i, g[0].v[0].segment(s, ni), 0);
        if(K == 2) assign(i, g[0].v[1].segment(sd, di), 1);
        s += ni;
        sd += di;
      }
    }
    else
      for(size_t i = 0; i < target.size(); ++i)
      {
        assign(target[i], g[i].v[0], 0);
        if(K == 2) assign(target[i], g[i].v[1], 1);
      }

    MatrixXd r;
    try
    {
      r = evaluate(uf, o, *w.xs[size_t(wrt)], g, hasVar);
    }
    catch(const std::exception & e)
    {
      c.fail("valid call refused", e.what());
    }
    const VectorXd z = expect(0), dz = expect(1);
    int s = 0;
    for(int i = 0; i < wrt; ++i) s += dot(w.xs[size_t(i)])->size();
    const int nw = dot(w.xs[size_t(wrt)])->size();
    MatrixXd e = o == 0   ? MatrixXd(M.value(z))
                 : o == 1 ? MatrixXd(M.jacobian(z).middleCols(s, nw))
                 : o == 2 ? MatrixXd(M.velocity(z, dz))
                 : o == 3 ? MatrixXd(M.normalAcc(dz))
                          : MatrixXd(M.JDot(dz).middleCols(s, nw));
    c.check(r.rows() == e.rows() && r.cols() == e.cols() && (r - e).norm() <= 1e-12 * (1 + e.norm()), "result",
            [&] { return cat(outs[o], ": ", r.reshaped().transpose(), " instead of ", e.reshaped().transpose()); });
    for(size_t i = 0; i < w.all.size(); ++i)
      c.check(w.all[i]->value() == model[i], "variables after the call",
              [&] { return cat(w.all[i]->name(), " is ", w.all[i]->value().transpose(), " instead of ", model[i].transpose()); });
    // by hand: the variables have been found as expected
    graph.execute();
    const auto & wv = *w.xs[size_t(wrt)];
    MatrixXd h = o == 0   ? MatrixXd(byHand->value())
                 : o == 1 ? MatrixXd(byHand->jacobian(wv))
                 : o == 2 ? MatrixXd(byHand->velocity())
                 : o == 3 ? MatrixXd(byHand->normalAcceleration())
                          : MatrixXd(byHand->JDot(wv));
    c.check((r - h).norm() <= 1e-12 * (1 + h.norm()), "same as by hand", "");
    c.state(Hash().i(l).i(o).m(r).m(z).m(dz));
  }
}

// ------------------------------------------------------------------------------------------------ refusals
void refusals(Ctx & c)
{
  const int l = c.choose(6);
  World w = world(l);
  const Math M = makeMath(c.choose(3), 2, w.xs);
  const int which = c.choose(3); // 0 all outputs, 1 no time derivative, 2 no value nor Jacobian
  FunctionPtr f = which == 0   ? std::make_shared<Poly>(M, w.xs)
                  : which == 1 ? std::static_pointer_cast<Poly>(std::make_shared<Partial>(M, w.xs))
                               : std::static_pointer_cast<Poly>(std::make_shared<NoJac>(M, w.xs));
  UpdatelessFunction uf(f);
  const int n = int(w.xs.size());
  const int o = c.choose(5);
  const int K = o < 2 ? 1 : 2;
  const bool enabled = which == 0 || (which == 1) == (o < 2);
  const int form = c.choose(3);
  std::vector<Group> g;
  bool hasVar = form == 1;
  int nr = 0, nt = 0;
  for(const auto & x : w.xs)
  {
    nr += x->size();
    nt += dot(x)->size();
  }
  auto foreign = Space(2).createVariable("foreign");
  bool valid = true;
  std::string what = "valid";
  if(form < 2)
  {
    for(int i = 0; i < n; ++i)
    {
      Group a;
      a.x = w.xs[size_t(i)].get();
      a.v[0] = pool(a.x->size(), i);
      a.v[1] = pool(dot(w.xs[size_t(i)])->size(), i + 3);
      g.push_back(a);
    }
    // defect: none, size of one vector, number of groups, foreign variable
    const int d = c.choose(5);
    if(d == 1)
    {
      const int i = c.choose(n), j = c.choose(K), more = c.flip();
      const int s = int(g[size_t(i)].v[j].size());
      if(s == 1 && !more) c.prune();
      const int ns = more ? s + 1 : s - 1;
      if(form == 0 && n == 1) what = "";
      g[size_t(i)].v[j] = pool(ns, 9);
      valid = false;
      what = cat("vector ", j, " of variable ", i, " of size ", ns);
    }
    else if(d == 2 && form == 0)
    {
      if(n < 3) c.prune();
      g.pop_back(); // 2 groups out of 3
      valid = false;
      what = "too few";
    }
    else if(d == 3 && form == 0)
    {
      if(n == 3) c.prune();
      g.push_back(g.back());
      valid = false;
      what = "too many";
    }
    else if(d == 4)
    {
      if(form == 0) c.prune();
      const int i = c.choose(n);
      g[size_t(i)].x = foreign.get();
      g[size_t(i)].v[0] = pool(2, 1);
      g[size_t(i)].v[1] = pool(2, 2);
      valid = false;
      what = cat("foreign variable at ", i);
    }
    else if(d != 0)
      c.prune();
  }
  else
  {
    Group a;
    const int d = c.choose(1 + 2 * K);
    a.v[0] = pool(nr + (d == 1) - (d == 2), 1);
    a.v[1] = pool(nt + (d == 3) - (d == 4), 2);
    if(a.v[0].size() == 0 || a.v[1].size() == 0) c.prune();
    g.push_back(a);
    valid = d == 0;
    what = cat("concatenated vectors of size ", a.v[0].size(), " and ", a.v[1].size(), " for ", nr, " and ", nt);
  }
  c.step([&] {
    return cat(outs[o], " of a function of ", layouts[l], " (outputs: ", which, "), form ", form, ": ", what);
  });
  const bool t = throws([&] { evaluate(uf, o, *w.xs[0], g, hasVar); });
  c.check(t == !(valid && enabled), t ? "valid call refused" : "invalid call accepted", what);
  // a variable the function does not depend on has no Jacobian
  if(valid && enabled && (o == 1 || o == 4))
    c.check(throws([&] { evaluate(uf, o, *foreign, g, hasVar); }), "Jacobian wrt. a foreign variable", "");
  // a refused call leaves the object usable
  if(!valid && enabled)
  {
    std::vector<Group> ok;
    for(int i = 0; i < n; ++i)
    {
      Group a;
      a.x = w.xs[size_t(i)].get();
      a.v[0] = pool(a.x->size(), i + 1);
      a.v[1] = pool(dot(w.xs[size_t(i)])->size(), i + 4);
      ok.push_back(a);
    }
    MatrixXd r = evaluate(uf, o, *w.xs[0], ok, true);
    auto p = std::static_pointer_cast<Poly>(f);
    const VectorXd z = p->z(), dz = p->dz();
    const int nw = dot(w.xs[0])->size();
    MatrixXd e = o == 0   ? MatrixXd(M.value(z))
                 : o == 1 ? MatrixXd(M.jacobian(z).leftCols(nw))
                 : o == 2 ? MatrixXd(M.velocity(z, dz))
                 : o == 3 ? MatrixXd(M.normalAcc(dz))
                          : MatrixXd(M.JDot(dz).leftCols(nw));
    c.check((r - e).norm() <= 1e-12 * (1 + e.norm()), "result after a refused call", "");
  }
  c.state(Hash().i(l).i(which).i(o).i(form).s(what));
}

// ------------------------------------------------------------------------------------------------ checker
struct Silent
{
  std::streambuf * old;
  std::ostringstream os;
  Silent() : old(std::cout.rdbuf(os.rdbuf())) {}
  ~Silent() { std::cout.rdbuf(old); }
};

void checker(Ctx & c)
{
  static const int ls[] = {0, 1, 2, 4, 5};
  const int l = ls[c.choose(5)];
  World w = world(l);
  const int kind = c.choose(3);
  if(kind == 2 && w.xs.size() == 1) c.prune();
  const int m = 1 + c.choose(c.thorough ? 3 : 2);
  const Math M = makeMath(kind, m, w.xs);
  auto f = std::make_shared<Poly>(M, w.xs);
  const int n = int(M.a.cols());

  // the configurations given to the checker
  const int how = c.choose(6);
  CheckOptions opt;
  opt.verbose = c.flip();
  typedef CheckOptions::CheckConfiguration Conf;
  auto conf = [&](int k, bool v, bool dv, bool acc) {
    Conf r;
    if(v) r.value = pool(n, k);
    if(dv) r.velocity = pool(n, k + 5);
    if(acc) r.acceleration = pool(n, k + 7);
    return r;
  };
  switch(how)
  {
    case 0: // one random sample by default
      break;
    case 1:
      opt.samples = 3;
      break;
    case 2:
      opt.configs = {conf(0, true, true, true)};
      break;
    case 3:
      opt.configs = {conf(1, true, true, true), conf(4, true, true, true), conf(6, true, true, true)};
      break;
    case 4:
      opt.configs = {conf(2, true, false, false)};
      opt.configs[0].samples = 2;
      break;
    case 5:
      opt.samples = 1;
      opt.configs = {conf(3, true, true, false), conf(5, true, true, true)};
      break;
  }
  // the error
  f->wrong = static_cast<Wrong>(c.choose(4));
  std::string what = "right function";
  const int rows = m;
  if(f->wrong != Nothing)
  {
    f->wr = c.choose(rows);
    f->wc = f->wrong == WJacobian ? c.choose(n) : 0;
    static const double ds[] = {1, -0.01, 0.001};
    f->delta = ds[c.choose(3)];
    // present everywhere, or at one of the given configurations only
    const int nc = int(opt.configs.size());
    const int at = nc ? c.choose(1 + nc) : 0;
    if(at) f->only = *opt.configs[size_t(at - 1)].value;
    static const char * kinds[] = {"", "Jacobian", "velocity", "normal acceleration"};
    what = cat(kinds[f->wrong], " entry (", f->wr, ",", f->wc, ") wrong by ", f->delta, at ? cat(" at configuration ", at - 1) : "");
  }
  c.step([&] { return cat("function of ", layouts[l], ", kind ", kind, ", ", m, " row(s), options ", how, ": ", what); });

  bool J, V, A, all;
  std::string out;
  {
    Silent s;
    std::srand(1);
    J = checkJacobian(f, opt);
    out += s.os.str();
    // What the other checks rely on is right unless it is what they test
    V = checkVelocity(f, opt);
    A = checkNormalAcceleration(f, opt);
    std::string t = s.os.str();
    all = checkFunction(f, opt);
    out = s.os.str();
  }
  auto say = [&] { return cat(what, "\n", out.substr(0, 600)); };
  if(f->wrong == Nothing)
  {
    c.check(J, "right Jacobian refused", say);
    c.check(V, "right velocity refused", say);
    c.check(A, "right normal acceleration refused", say);
    c.check(all, "right function refused", say);
  }
  else
  {
    // f->delta is above the tolerance: prec times the norm of the quantity
    if(f->wrong == WJacobian)
      c.check(!J, "wrong Jacobian accepted", say);
    else
      c.check(J, "right Jacobian refused", say);
    if(f->wrong == WVelocity) c.check(!V, "wrong velocity accepted", say);
    if(f->wrong == WNormalAcc)
    {
      c.check(V, "right velocity refused", say);
      c.check(!A, "wrong normal acceleration accepted", say);
    }
    c.check(!all, "wrong function accepted", say);
  }
  if(!opt.verbose) c.check(out.empty(), "talks when not verbose", say);
  c.state(Hash().i(l).i(kind).i(how).s(what));
}

/** Functions of the library, and functions that lack what a check needs */
void library(Ctx & c)
{
  const int l = c.choose(6);
  World w = world(l);
  const int kind = c.choose(4);
  FunctionPtr f;
  bool can = true;
  MatrixXd A0;
  CheckOptions opt;
  if(c.flip()) opt.samples = 4;
  opt.verbose = true;
  switch(kind)
  {
    case 0:
      if(l == 3) c.prune();
      {
        std::vector<MatrixXd> As;
        std::vector<MatrixConstRef> refs;
        for(size_t i = 0; i < w.xs.size(); ++i)
        {
          MatrixXd A(2, w.xs[i]->size());
          for(int k = 0; k < A.size(); ++k) A(k) = coef(k + int(i));
          As.push_back(A);
        }
        for(const auto & A : As) refs.push_back(A);
        f = std::make_shared<function::BasicLinearFunction>(refs, w.xs, VectorXd::Constant(2, 0.5));
      }
      break;
    case 1:
      if(l == 3) c.prune();
      f = std::make_shared<function::IdentityFunction>(w.xs[0]);
      break;
    case 2:
      f = std::make_shared<Partial>(makeMath(1, 2, w.xs), w.xs);
      can = false;
      break;
    case 3:
      f = std::make_shared<NoJac>(makeMath(1, 2, w.xs), w.xs);
      can = false;
      break;
  }
  c.step([&] { return cat("function kind ", kind, " of ", layouts[l]); });
  Silent s;
  std::srand(3);
  if(can)
  {
    c.check(checkJacobian(f, opt), "right Jacobian refused", [&] { return s.os.str(); });
    c.check(checkVelocity(f, opt), "right velocity refused", [&] { return s.os.str(); });
    c.check(checkNormalAcceleration(f, opt), "right normal acceleration refused", [&] { return s.os.str(); });
    c.check(checkFunction(f, opt), "right function refused", [&] { return s.os.str(); });
  }
  else
  {
    if(kind == 3) c.check(throws([&] { checkJacobian(f, opt); }), "check without the needed outputs", "Jacobian");
    c.check(throws([&] { checkVelocity(f, opt); }), "check without the needed outputs", "velocity");
    c.check(throws([&] { checkNormalAcceleration(f, opt); }), "check without the needed outputs", "normal acceleration");
    c.check(throws([&] { checkFunction(f, opt); }), "check without the needed outputs", "function");
    if(kind == 2 && l != 3) c.check(checkJacobian(f, opt), "right Jacobian refused", [&] { return s.os.str(); });
    if(kind == 2 && l == 3) // finite differences are not meaningful on manifolds
      c.check(throws([&] { checkJacobian(f, opt); }), "check on a manifold", "");
  }
  c.state(Hash().i(l).i(kind).i(opt.samples));
}
} // namespace

int main(int argc, char ** argv)
{
  std::vector<Driver> drivers = {
      {"evaluation",
       "functions of 1 to 3 variables (with a manifold variable or a part of a variable), linear/quadratic/bilinear; all "
       "sequences of calls x all outputs x all call forms (positional, by variable in any order with repetitions and "
       "omissions, concatenated; vectors and lists)",
       evaluation, 4},
      {"refusals", "same functions, each single defect in the arguments of each call form; disabled outputs", refusals, 4},
      {"checker",
       "linear, quadratic and bilinear functions, all single-entry errors of Jacobian, velocity and normal acceleration "
       "x 3 amplitudes x 6 ways of choosing configurations, errors present everywhere or at one configuration",
       checker, 4},
      {"library", "functions of the library, functions without the outputs needed", library, 3}};
  return run(argc, argv, "C21", drivers,
             {"random configurations drawn by the checker come from std::rand with a fixed seed",
              "the tolerance is relative to the magnitude of the compared quantities (documented): the configurations "
              "given have non-zero derivatives"});
}
