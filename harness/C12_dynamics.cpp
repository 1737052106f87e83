// C12: task dynamics against their laws, computed entry by entry from the inputs.
#include "mc.h"

#include <tvm/Variable.h>
#include <tvm/function/BasicLinearFunction.h>
#include <tvm/function/abstract/Function.h>
#include <tvm/function/abstract/LinearFunction.h>
#include <tvm/task_dynamics/Clamped.h>
#include <tvm/task_dynamics/Constant.h>
#include <tvm/task_dynamics/FeedForward.h>
#include <tvm/task_dynamics/None.h>
#include <tvm/task_dynamics/OneStepToZero.h>
#include <tvm/task_dynamics/Proportional.h>
#include <tvm/task_dynamics/ProportionalDerivative.h>
#include <tvm/task_dynamics/Reference.h>
#include <tvm/utils/graph.h>

#include <memory>
#include <optional>
using namespace tvm;
using namespace mc;
using namespace Eigen;
namespace td = tvm::task_dynamics;
using tvm::constraint::Type;
typedef std::vector<double> Vec;

namespace
{
/** A function whose value and velocity are those set by the user, made available by its updates only */
class Fn : public function::abstract::Function
{
public:
  SET_UPDATES(Fn, Value, Velocity)
  VectorXd v, dv; // the truth
  Fn(int n) : Function(n), v(VectorXd::Zero(n)), dv(VectorXd::Zero(n)) { init(); }
  Fn(Space s) : Function(s), v(VectorXd::Zero(s.rSize())), dv(VectorXd::Zero(s.tSize())) { init(); }

private:
  void init()
  {
    registerUpdates(Update::Value, &Fn::uv, Update::Velocity, &Fn::ud);
    addOutputDependency<Fn>(Output::Value, Update::Value);
    addOutputDependency<Fn>(Output::Velocity, Update::Velocity);
    value_.setConstant(4e5);
    velocity_.setConstant(3e5);
  }
  void uv() { value_ = v; }
  void ud() { velocity_ = dv; }
};
/** Linear function f = A x + b, with b changing through an update only */
class LFn : public function::abstract::LinearFunction
{
public:
  SET_UPDATES(LFn, B)
  VectorXd truth;
  LFn(int n, VariablePtr x) : LinearFunction(n), truth(VectorXd::Zero(n))
  {
    registerUpdates(Update::B, &LFn::ub);
    addOutputDependency<LFn>(Output::B, Update::B);
    addVariable(x, true);
    jacobian_[x.get()].setRandom();
    b_.setConstant(7e5);
  }

private:
  void ub() { b_ = truth; }
};
class Provider : public tvm::graph::abstract::Node<Provider>
{
public:
  SET_OUTPUTS(Provider, Value)
  SET_UPDATES(Provider, Value)
  VectorXd truth, cache;
  Provider(int n) : truth(VectorXd::Zero(n)), cache(VectorXd::Constant(n, 9e5))
  {
    registerUpdates(Update::Value, &Provider::u);
    addOutputDependency(Output::Value, Update::Value);
  }
  const VectorXd & value() const { return cache; }
  void u() { cache = truth; }
};

const double values[] = {0.75, -2, 0, 1.5, -0.5, 8};
double val(int i) { return values[i % 6]; }
/** the k-th input vector of size n */
VectorXd vec(int n, int k)
{
  VectorXd v(n);
  for(int i = 0; i < n; ++i) v[i] = val(k + 2 * i) * (k >= 6 ? 0.5 : 1);
  return v;
}

// ---- gains
struct G
{
  int form = 0; // 0 scalar, 1 vector, 2 matrix
  double s = 0;
  VectorXd v;
  MatrixXd m;
  MatrixXd full(int n) const
  {
    MatrixXd r = MatrixXd::Zero(n, n);
    for(int i = 0; i < n; ++i)
      for(int j = 0; j < n; ++j) r(i, j) = form == 2 ? m(i, j) : i != j ? 0 : form == 0 ? s : v[i];
    return r;
  }
  std::string str() const { return form == 0 ? mc::str(s) : form == 1 ? mc::cat("[", v.transpose(), "]") : mc::cat("[", m.reshaped().transpose(), "]"); }
};
const double gs[] = {4, 0.25, 9, 0, 2.25};
/** orthogonal matrices with rational entries */
MatrixXd ortho(int n)
{
  if(n == 1) return MatrixXd::Ones(1, 1);
  if(n == 2)
  {
    MatrixXd q(2, 2);
    q << 0.6, -0.8, 0.8, 0.6;
    return q;
  }
  MatrixXd q(3, 3);
  q << 1, 2, 2, 2, 1, -2, 2, -2, 1;
  return q / 3;
}
/** k-th gain of the given form; symmetric positive semi-definite with a known square root when needed */
G gain(int form, int n, int k, bool spd, MatrixXd * sqrt = nullptr)
{
  G g;
  g.form = form;
  g.s = gs[k % 5];
  g.v.resize(n);
  for(int i = 0; i < n; ++i) g.v[i] = spd ? gs[(k + i) % 3] : gs[(k + i) % 5];
  if(form == 2)
  {
    if(spd)
      g.m = ortho(n) * g.v.asDiagonal() * ortho(n).transpose();
    else
    {
      g.m.resize(n, n);
      for(int i = 0; i < n; ++i)
        for(int j = 0; j < n; ++j) g.m(i, j) = val(k + 3 * i + j + (i > j));
    }
  }
  if(sqrt)
  {
    G r;
    r.form = form;
    VectorXd sv = g.v.array().sqrt();
    r.s = std::sqrt(g.s);
    r.v = sv;
    r.m = ortho(n) * sv.asDiagonal() * ortho(n).transpose();
    *sqrt = r.full(n);
  }
  return g;
}
bool near(const VectorXd & a, const VectorXd & b)
{
  if(a.size() != b.size()) return false;
  for(int i = 0; i < a.size(); ++i)
    if(!(std::abs(a[i] - b[i]) <= 1e-9 * (1 + std::abs(b[i])))) return false;
  return true;
}
bool nearM(const MatrixXd & a, const MatrixXd & b) { return a.rows() == b.rows() && a.cols() == b.cols() && near(a.reshaped(), b.reshaped()); }
template<typename Gain>
MatrixXd fullOf(const Gain & g, int n)
{
  G r;
  r.form = static_cast<int>(g.index());
  if(r.form == 0) r.s = mpark::get<double>(g);
  if(r.form == 1) r.v = mpark::get<VectorXd>(g);
  if(r.form == 2) r.m = mpark::get<MatrixXd>(g);
  if((r.form == 1 && r.v.size() != n) || (r.form == 2 && (r.m.rows() != n || r.m.cols() != n))) return MatrixXd();
  return r.full(n);
}
template<typename F>
void with(const G & g, F && f)
{
  if(g.form == 0)
    f(g.s);
  else if(g.form == 1)
    f(g.v);
  else
    f(g.m);
}
template<typename F>
bool throws(F && f)
{
  try
  {
    f();
  }
  catch(const std::exception &)
  {
    return true;
  }
  return false;
}
Type type(int i) { return std::vector<Type>{Type::EQUAL, Type::GREATER_THAN, Type::LOWER_THAN, Type::DOUBLE_SIDED}[static_cast<size_t>(i)]; }

std::unique_ptr<tvm::graph::CallGraph> graphOf(const std::shared_ptr<td::abstract::TaskDynamicsImpl> & t)
{ return utils::generateUpdateGraph(t, td::abstract::TaskDynamicsImpl::Output::Value); }

// ---------------------------------------------------------------- P and PD: all gain forms, changed along the way
void gains(Ctx & c, bool pd)
{
  int n = 1 + c.choose(3);
  auto f = std::make_shared<Fn>(n);
  bool full = c.thorough || !pd;
  int ki = c.choose(full ? 3 : 1), kf = 0;
  VectorXd rhs = vec(n, full && c.choose(2) ? 1 : 8);
  f->v = vec(n, 0);
  f->dv = vec(n, 3);
  Type t = type(full ? c.choose(2) : 1);
  int form = c.choose(3), formv = pd ? c.choose(4) : 0; // 3: critically damped
  MatrixXd kp, kv, root;
  std::shared_ptr<td::abstract::TaskDynamicsImpl> impl;
  auto set = [&](int fp, int fv, int k) {
    G g = gain(fp, n, k, fv == 3, &root);
    kp = g.full(n);
    if(fv == 3)
      kv = 2 * root;
    else
      kv = gain(fv, n, k + 1, false).full(n);
    return g;
  };
  {
    G g = set(form, formv, ki);
    c.step([&] { return cat(pd ? "PD" : "P", " n=", n, " kp=", g.str(), formv == 3 ? " critically damped" : ""); });
    if(!pd)
      with(g, [&](auto & x) { impl = td::P(x).impl(f, t, rhs); });
    else if(formv == 3)
      with(g, [&](auto & x) { impl = td::PD(x).impl(f, t, rhs); });
    else
      with(g, [&](auto & x) { with(gain(formv, n, ki + 1, false), [&](auto & y) { impl = td::PD(x, y).impl(f, t, rhs); }); });
  }
  auto gr = graphOf(impl);
  auto * pi = dynamic_cast<td::P::Impl *>(impl.get());
  auto * di = dynamic_cast<td::PD::Impl *>(impl.get());
  c.check((pd ? (void *)di : (void *)pi) != nullptr, "type", "checkType");
  c.check(impl->checkType<td::P::Impl>() == !pd && impl->checkType<td::PD::Impl>() == pd, "type", "checkType");
  c.check(impl->order() == (pd ? td::Order::Two : td::Order::One), "order", "order");
  auto verify = [&] {
    gr->execute();
    VectorXd e = f->v - rhs, expected = VectorXd::Zero(n);
    for(int i = 0; i < n; ++i)
      for(int j = 0; j < n; ++j)
      {
        expected[i] -= kp(i, j) * e[j];
        if(pd) expected[i] -= kv(i, j) * f->dv[j];
      }
    c.check(near(impl->value(), expected), "law", [&] { return cat("value [", impl->value().transpose(), "], expected [", expected.transpose(), "]"); });
    MatrixXd p = pd ? fullOf(di->gains().first, n) : fullOf(pi->gain(), n);
    c.check(nearM(p, kp), "gain-p", [&] { return cat("kp is\n", p, "\nexpected\n", kp); });
    if(pd)
    {
      MatrixXd v = fullOf(di->gains().second, n);
      c.check(nearM(v, kv), "gain-v", [&] { return cat("kv is\n", v, "\nexpected\n", kv); });
    }
  };
  int depth = c.choose(c.thorough ? 4 : 3);
  if(depth == 0) verify();
  for(int s = 0; s < depth; ++s)
  {
    // a reading between operations must not matter: only the last state is verified (prefixes are explored too)
    switch(c.choose(5))
    {
      case 0:
        kf += 1;
        f->v = vec(n, kf);
        f->dv = vec(n, kf + 4);
        c.step([&] { return cat("f=[", f->v.transpose(), "] df=[", f->dv.transpose(), "]"); });
        break;
      case 1: // explicit setter
      {
        int fp = c.choose(3), fv = pd ? c.choose(4) : 0;
        int k = ki + 1 + s;
        G g = set(fp, fv, k);
        c.step([&] { return cat("gains kp=", g.str(), fv == 3 ? " critically damped" : cat(" kv form ", fv)); });
        if(!pd)
          with(g, [&](auto & x) { pi->gain(x); });
        else if(fv == 3)
          with(g, [&](auto & x) { di->gains(x); });
        else
          with(g, [&](auto & x) { with(gain(fv, n, k + 1, false), [&](auto & y) { di->gains(x, y); }); });
        break;
      }
      case 2: // refused setter
      {
        int fp = c.choose(3), fv = pd ? c.choose(4) : 0;
        int bad = n + (c.flip() ? 1 : -1);
        if(fp == 0 && (fv == 0 || fv == 3)) c.prune(); // scalars are always fine
        bool badp = fp != 0 && (fv == 0 || fv == 3 || c.flip());
        G g = gain(fp, badp ? bad : n, ki, false), h = gain(fv == 3 ? 0 : fv, badp ? n : bad, ki, false);
        if(fp == 2 && badp && c.flip()) g.m = MatrixXd::Identity(n, bad); // only one dimension wrong
        if(!badp && fv == 2 && c.flip()) h.m = MatrixXd::Identity(bad, n);
        c.step([&] { return cat("refused gains ", g.str(), " / ", h.str()); });
        bool r = throws([&] {
          if(!pd)
            with(g, [&](auto & x) { pi->gain(x); });
          else if(fv == 3)
            with(g, [&](auto & x) { di->gains(x); });
          else
            with(g, [&](auto & x) { with(h, [&](auto & y) { di->gains(x, y); }); });
        });
        c.check(r, "refused", "gain of the wrong size accepted");
        break;
      }
      case 3: // through the reference
      {
        c.step("gain through the non-const reference");
        G g = gain(c.choose(3), n, ki + 2, false);
        bool v = pd && c.flip();
        with(g, [&](auto & x) {
          if(!pd)
            pi->gain() = x;
          else if(v)
            di->kv() = x;
          else
            di->kp() = x;
        });
        (v ? kv : kp) = g.full(n);
        break;
      }
      case 4: // in-place edition of the typed gain
      {
        c.step("typed gain *= 2");
        bool v = pd && c.flip();
        auto scale = [&](auto & gv) {
          if(gv.index() == 0) mpark::get<double>(gv) *= 2;
          if(gv.index() == 1) mpark::get<VectorXd>(gv) *= 2;
          if(gv.index() == 2) mpark::get<MatrixXd>(gv) *= 2;
        };
        if(!pd)
          scale(pi->gain());
        else
          scale(v ? di->kv() : di->kp());
        (v ? kv : kp) *= 2;
        break;
      }
    }
    if(s == depth - 1 || c.flip()) verify();
  }
  Hash h;
  h.m(impl->value());
  c.state(h);
}
/** gains of a wrong size are refused when the task dynamics is bound to a function */
void wrongGain(Ctx & c)
{
  int n = 1 + c.choose(3);
  auto f = std::make_shared<Fn>(n);
  VectorXd rhs = VectorXd::Zero(n);
  bool pd = c.flip();
  auto sized = [&](int form) {
    G g;
    g.form = form;
    g.s = 1;
    g.v = VectorXd::Ones(form == 1 ? 1 + c.choose(4) : 1);
    int r = form == 2 ? 1 + c.choose(4) : 1, k = form == 2 ? 1 + c.choose(4) : 1;
    g.m = MatrixXd::Identity(r, k);
    return g;
  };
  auto ok = [&](const G & g) { return g.form == 0 || (g.form == 1 && g.v.size() == n) || (g.form == 2 && g.m.rows() == n && g.m.cols() == n); };
  G g = sized(c.choose(3)), h;
  if(pd) h = sized(c.choose(3));
  bool good = ok(g) && ok(h);
  c.step([&] { return cat(pd ? "PD" : "P", " kp ", g.str(), " kv ", h.str(), " for size ", n); });
  bool t = throws([&] {
    if(pd)
      with(g, [&](auto & x) { with(h, [&](auto & y) { td::PD(x, y).impl(f, Type::EQUAL, rhs); }); });
    else
      with(g, [&](auto & x) { td::P(x).impl(f, Type::EQUAL, rhs); });
  });
  c.check(t == !good, "refused", [&] { return cat(good ? "valid gains refused" : "gain of the wrong size accepted"); });
  c.state(Hash().i(good));
}

// ---------------------------------------------------------------- every dynamics, composed, along input changes
struct Base
{
  int kind;
  FunctionPtr f;
  std::shared_ptr<Fn> fn;
  std::shared_ptr<LFn> lf;
  std::shared_ptr<Fn> ref;
  std::shared_ptr<Provider> p1, p2;
  VectorXd rhs;
  int n;
  VectorXd law() const
  {
    VectorXd r(n);
    const VectorXd z = VectorXd::Zero(n);
    const VectorXd & v = fn ? fn->v : z;
    const VectorXd & dv = fn ? fn->dv : z;
    for(int i = 0; i < n; ++i)
    {
      double e = v[i] - rhs[i];
      switch(kind)
      {
        case 0: r[i] = rhs[i]; break;
        case 1: r[i] = rhs[i] - lf->truth[i]; break;
        case 2: r[i] = -e / 0.25; break;
        case 3: r[i] = 2 / 0.5 * (-e / 0.5 - dv[i]); break;
        case 4: r[i] = -3 * e; break;
        case 5: r[i] = -4 * e - 0.5 * dv[i]; break;
        case 6:
        case 7: r[i] = ref->v[i]; break;
      }
    }
    return r;
  }
};
struct Bounds
{
  int form; // 0 max, 1 pair, 2 vector max, 3 pair of vectors
  double lo, hi;
  VectorXd vlo, vhi;
  Bounds() {}
  Bounds(int form, int n, int k) : form(form), hi(std::vector<double>{1, 2.5, 0}[static_cast<size_t>(k)])
  {
    lo = form == 0 ? -hi : -0.5 * (k + 1) * (k < 2);
    vhi = VectorXd::Constant(n, hi);
    vlo = VectorXd::Constant(n, lo);
    if(form >= 2)
      for(int i = 0; i < n; ++i)
      {
        vhi[i] = hi + 0.5 * i;
        vlo[i] = form == 2 ? -vhi[i] : lo - 0.25 * i;
      }
  }
};
/** the largest s in [0, 1] such that s*v is within the bounds */
VectorXd clamp(const VectorXd & v, const Bounds & b)
{
  double s = 1;
  for(int i = 0; i < v.size(); ++i)
  {
    if(s * v[i] > b.vhi[i]) s = b.vhi[i] / v[i];
    if(s * v[i] < b.vlo[i]) s = b.vlo[i] / v[i];
  }
  return s * v;
}
typedef std::shared_ptr<td::abstract::TaskDynamicsImpl> ImplPtr;
/** instantiate Wrapped<TD> with the arguments of TD at the end */
template<class TD, class... A>
ImplPtr makeWrapped(int wrap, const Base & b, const Bounds & c1, const Bounds & c2, Type t, const A &... a)
{
  auto fin = [&](const td::abstract::TaskDynamics & d) { return ImplPtr(d.impl(b.f, t, b.rhs)); };
  typedef std::pair<double, double> PD2;
  typedef std::pair<VectorConstRef, VectorConstRef> PV2;
  auto sig = Provider::Output::Value;
  auto met = &Provider::value;
  switch(wrap)
  {
    case 0: return fin(TD(a...));
    case 1:
      if(c1.form == 1) return fin(td::Clamped<TD>(PD2(c1.lo, c1.hi), a...));
      if constexpr(sizeof...(A) > 0) // (these forms do not compile for a dynamics without parameters)
      {
        if(c1.form == 0) return fin(td::Clamped<TD>(c1.hi, a...));
        if(c1.form == 2) return fin(td::Clamped<TD>(VectorConstRef(c1.vhi), a...));
      }
      return fin(td::Clamped<TD>(PV2(c1.vlo, c1.vhi), a...));
    case 2: return fin(td::FeedForward<TD>(b.p1, met, sig, a...));
    case 3: return fin(td::Clamped<td::FeedForward<TD>>(PV2(c1.vlo, c1.vhi), b.p1, met, sig, a...));
    case 4: return fin(td::FeedForward<td::Clamped<TD>>(b.p1, met, sig, PD2(c1.lo, c1.hi), a...));
    case 5: return fin(td::Clamped<td::Clamped<TD>>(PV2(c1.vlo, c1.vhi), PD2(c2.lo, c2.hi), a...));
    case 6: return fin(td::FeedForward<td::FeedForward<TD>>(b.p1, met, sig, b.p2, met, sig, a...));
    case 7: return fin(td::Clamped<td::FeedForward<td::Clamped<TD>>>(PD2(c1.lo, c1.hi), b.p1, met, sig, PD2(c2.lo, c2.hi), a...));
  }
  return nullptr;
}
const int nwrap = 8;
VectorXd wrapped(int wrap, const VectorXd & v, const Base & b, const Bounds & c1, const Bounds & c2)
{
  switch(wrap)
  {
    case 0: return v;
    case 1: return clamp(v, c1);
    case 2: return v + b.p1->truth;
    case 3: return clamp(v + b.p1->truth, c1);
    case 4: return clamp(v, c1) + b.p1->truth;
    case 5: return clamp(clamp(v, c2), c1);
    case 6: return v + b.p1->truth + b.p2->truth;
    case 7: return clamp(clamp(v, c2) + b.p1->truth, c1);
  }
  return v;
}
void compose(Ctx & c)
{
  Base b;
  b.n = 1 + c.choose(3);
  b.kind = c.choose(8);
  int n = b.n;
  if(b.kind == 1)
  {
    VariablePtr x = Space(2).createVariable("x");
    b.f = b.lf = std::make_shared<LFn>(n, x);
  }
  else
    b.f = b.fn = std::make_shared<Fn>(n);
  if(b.kind >= 6) b.ref = std::make_shared<Fn>(n);
  b.p1 = std::make_shared<Provider>(n);
  b.p2 = std::make_shared<Provider>(n);
  b.p1->cache.setZero();
  b.rhs = vec(n, c.choose(3));
  int wrap = c.choose(nwrap);
  bool clamps = wrap == 1 || wrap == 3 || wrap == 4 || wrap == 5 || wrap == 7;
  int form = wrap == 1 ? c.choose(4) : wrap == 3 || wrap == 5 ? 3 : wrap == 4 ? 1 : 0;
  Bounds c1(form, n, clamps ? c.choose(3) : 0), c2(0, n, 1);
  Type t = type(c.choose(4));
  c.step([&] { return cat("dynamics ", b.kind, " wrapper ", wrap, " n=", n, " rhs=[", b.rhs.transpose(), "]"); });
  ImplPtr impl;
  switch(b.kind)
  {
    case 0: impl = makeWrapped<td::Constant>(wrap, b, c1, c2, t); break;
    case 1: impl = makeWrapped<td::None>(wrap, b, c1, c2, t); break;
    case 2: impl = makeWrapped<td::OneStepToZero>(wrap, b, c1, c2, t, td::Order::One, 0.25); break;
    case 3: impl = makeWrapped<td::OneStepToZero>(wrap, b, c1, c2, t, td::Order::Two, 0.5); break;
    case 4: impl = makeWrapped<td::P>(wrap, b, c1, c2, t, 3.); break;
    case 5: impl = makeWrapped<td::PD>(wrap, b, c1, c2, t, 4., 0.5); break;
    case 6: impl = makeWrapped<td::ReferenceVelocity>(wrap, b, c1, c2, t, FunctionPtr(b.ref)); break;
    case 7: impl = makeWrapped<td::ReferenceAcceleration>(wrap, b, c1, c2, t, FunctionPtr(b.ref)); break;
  }
  const td::Order orders[] = {td::Order::Zero, td::Order::Zero, td::Order::One, td::Order::Two, td::Order::One, td::Order::Two, td::Order::One, td::Order::Two};
  c.check(impl->order() == orders[b.kind], "order", "order of the dynamics");
  auto gr = graphOf(impl);
  int depth = 1 + c.choose(c.thorough ? 3 : 2);
  for(int s = 0; s < depth; ++s)
  {
    int k = c.choose(4) + 4 * s;
    if(b.fn)
    {
      b.fn->v = vec(n, k);
      b.fn->dv = vec(n, k + 3);
    }
    else
      b.lf->truth = vec(n, k);
    if(b.ref) b.ref->v = vec(n, k + 2);
    if(wrap >= 2)
    {
      b.p1->truth = vec(n, k + 1);
      b.p2->truth = vec(n, k + 5);
    }
    c.step([&] { return cat("inputs ", k); });
    if(s == depth - 1)
    {
      gr->execute();
      VectorXd e = wrapped(wrap, b.law(), b, c1, c2);
      c.check(near(impl->value(), e), "composed", [&] { return cat("value [", impl->value().transpose(), "], expected [", e.transpose(), "]"); });
    }
    else if(c.flip())
      gr->execute();
  }
  Hash h;
  h.m(impl->value());
  c.state(h);
}

// ---------------------------------------------------------------- clamping over a grid
void clampGrid(Ctx & c)
{
  int n = 1 + c.choose(3);
  static const double grid[] = {0, 1, -1, 3, -3, 0.5, -4};
  static const double his[] = {1, 0, 2}, los[] = {-1, 0, -2};
  auto f = std::make_shared<Fn>(n);
  Bounds b(3, n, 0);
  for(int i = 0; i < n; ++i)
  {
    b.vhi[i] = his[c.choose(n == 3 ? 2 : 3)];
    b.vlo[i] = los[c.choose(n == 3 ? 2 : 3)];
    f->v[i] = grid[c.choose(n == 3 ? 5 : 7)];
  }
  bool later = c.flip(); // bounds set afterwards through min()/max()
  ImplPtr impl;
  if(later)
    impl = td::Clamped<td::P>(7., 1.).impl(f, Type::EQUAL, VectorXd::Zero(n));
  else
    impl = td::Clamped<td::P>(std::pair<VectorConstRef, VectorConstRef>(b.vlo, b.vhi), 1.).impl(f, Type::EQUAL, VectorXd::Zero(n));
  auto * ci = dynamic_cast<td::Clamped<td::P>::Impl *>(impl.get());
  c.check(ci && impl->checkType<td::Clamped<td::P>>() == false && impl->checkType<td::Clamped<td::P>::Impl>(), "type", "checkType");
  c.step([&] { return cat("value [", -f->v.transpose(), "] clamped to [", b.vlo.transpose(), "]..[", b.vhi.transpose(), "]"); });
  auto gr = graphOf(impl);
  if(later)
  {
    gr->execute();
    ci->min() = b.vlo;
    ci->max() = b.vhi;
  }
  gr->execute();
  VectorXd w = -f->v, r = impl->value();
  double s = -1; // common factor
  for(int i = 0; i < n; ++i)
  {
    c.check(r[i] <= b.vhi[i] * (1 + 1e-12) + 1e-300 && r[i] >= b.vlo[i] * (1 + 1e-12) - 1e-300, "clamp-bounds", [&] { return cat("clamped value [", r.transpose(), "]"); });
    if(w[i] != 0)
    {
      double q = r[i] / w[i];
      c.check(q >= 0 && q <= 1 && (s < 0 || std::abs(q - s) < 1e-12), "clamp-direction", [&] { return cat("clamped value [", r.transpose(), "]"); });
      s = q;
    }
    else
      c.check(r[i] == 0, "clamp-direction", [&] { return cat("clamped value [", r.transpose(), "]"); });
  }
  VectorXd e = clamp(w, b);
  c.check(near(r, e), "clamp-value", [&] { return cat("clamped value [", r.transpose(), "], expected [", e.transpose(), "]"); });
  c.check(near(ci->min(), b.vlo) && near(ci->max(), b.vhi), "clamp-access", "min/max");
  Hash h;
  h.m(r);
  c.state(h);
}

// ---------------------------------------------------------------- refusals
void refusals(Ctx & c)
{
  int what = c.choose(9);
  c.step([&] { return cat("case ", what); });
  bool expected = true, got = false;
  auto f = std::make_shared<Fn>(2);
  VectorXd z = VectorXd::Zero(2);
  switch(what)
  {
    case 0: // size of the right-hand side, for every dynamics
    {
      int n = 1 + c.choose(3), k = c.choose(4), d = c.choose(6);
      auto g = std::make_shared<Fn>(n);
      VectorXd r = VectorXd::Zero(k);
      expected = n != k;
      got = throws([&] {
        if(d == 0) td::Constant().impl(g, Type::EQUAL, r);
        if(d == 1) td::P(1.).impl(g, Type::EQUAL, r);
        if(d == 2) td::PD(1.).impl(g, Type::EQUAL, r);
        if(d == 3) td::OneStepToZero(td::Order::One, 1.).impl(g, Type::EQUAL, r);
        if(d == 4) td::Reference(td::Order::One, g).impl(g, Type::EQUAL, r);
        if(d == 5) td::Clamped<td::P>(1., 1.).impl(g, Type::EQUAL, r);
      });
      break;
    }
    case 1: // non Euclidean image
    {
      int d = c.choose(3);
      auto g = std::make_shared<Fn>(d == 0 ? Space(Space::Type::SO3) : d == 1 ? Space(Space::Type::SE3) : Space(2, 3, 2));
      VectorXd r = VectorXd::Zero(g->size());
      got = throws([&] { td::Constant().impl(g, Type::EQUAL, r); });
      break;
    }
    case 2: // one step
    {
      int o = c.choose(4);
      static const double dts[] = {0.1, 0, -1, 5};
      double dt = dts[c.choose(4)];
      expected = !(o == 1 || o == 2) || dt <= 0;
      got = throws([&] { td::OneStepToZero d(static_cast<td::Order>(o), dt); (void)d; });
      break;
    }
    case 3: // scalar clamping
    {
      static const double vs[] = {-2, -0.5, 0, 0.5, 2};
      double a = vs[c.choose(5)], b = vs[c.choose(5)];
      bool pair = c.flip();
      expected = pair ? (a > 0 || b < 0) : b < 0;
      got = throws([&] {
        if(pair)
          td::Clamped<td::P>(std::pair<double, double>(a, b), 1.).impl(f, Type::EQUAL, z);
        else
          td::Clamped<td::P>(b, 1.).impl(f, Type::EQUAL, z);
      });
      break;
    }
    case 4: // vector clamping
    {
      static const double vs[] = {-2, 0, 2};
      int na = 1 + c.choose(3), nb = 1 + c.choose(3);
      VectorXd a(na), b(nb);
      for(int i = 0; i < na; ++i) a[i] = vs[c.choose(3)];
      for(int i = 0; i < nb; ++i) b[i] = vs[c.choose(3)];
      bool pair = c.flip();
      if(pair)
        expected = na != nb || na != 2 || (a.array() > 0).any() || (b.array() < 0).any();
      else
        expected = nb != 2 || (b.array() < 0).any();
      got = throws([&] {
        if(pair)
          td::Clamped<td::P>(std::pair<VectorConstRef, VectorConstRef>(a, b), 1.).impl(f, Type::EQUAL, z);
        else
          td::Clamped<td::P>(VectorConstRef(b), 1.).impl(f, Type::EQUAL, z);
      });
      break;
    }
    case 5: // no reference
    {
      bool null = c.flip();
      expected = null;
      got = throws([&] { td::ReferenceAcceleration(null ? FunctionPtr() : FunctionPtr(f)).impl(f, Type::EQUAL, z); });
      break;
    }
    case 6: // None on a function that is not linear
    {
      bool lin = c.flip();
      expected = !lin;
      VariablePtr x = Space(2).createVariable("x");
      FunctionPtr g = f;
      if(lin) g = std::make_shared<LFn>(2, x);
      got = throws([&] { td::None().impl(g, Type::EQUAL, z); });
      break;
    }
    case 7: // size of the feed-forward
    {
      int n = c.choose(4);
      auto p = std::make_shared<Provider>(n);
      expected = n != 2;
      got = throws([&] { td::FeedForwardP(p, &Provider::value, Provider::Output::Value, 1.).impl(f, Type::EQUAL, z); });
      break;
    }
    case 8: // size of the reference
    {
      int n = 1 + c.choose(3);
      expected = n != 2;
      got = throws([&] { td::ReferenceVelocity(std::make_shared<Fn>(n)).impl(f, Type::EQUAL, z); });
      break;
    }
  }
  c.check(got == expected, "refused", [&] { return cat("case ", what, expected ? ": invalid parameters accepted" : ": valid parameters refused"); });
  c.state(Hash().i(what).i(expected));
}

std::vector<Driver> drivers()
{
  return {
      {"proportional", "P, sizes 1-3, every gain form at construction, every sequence of up to 2 (thorough: 3) input changes, gain changes of any form, refused changes, changes through references, with or without update in between", [](Ctx & c) { gains(c, false); }, 4},
      {"prop-derivative", "PD, likewise, all 9 pairs of gain forms and the 3 critically damped ones", [](Ctx & c) { gains(c, true); }, 5},
      {"wrong-gain", "every size of vector and matrix gains for functions of size 1-3", wrongGain, 3},
      {"compose", "8 dynamics x 8 wrappers (clamped, feed-forward, nested) x bound forms x sizes 1-3 x constraint types x sequences of 1-2 (3) inputs", compose, 4},
      {"clamp", "clamping of every value of a grid by every bounds of a grid, sizes 1-3, given at construction or later", clampGrid, 4},
      {"refusals", "every valid and invalid parameter of small sets", refusals, 2}};
}
} // namespace
int main(int argc, char ** argv)
{
  return run(argc, argv, "C12", drivers(), {"gains, values and bounds from small sets; comparison up to 1e-9 relative", "feed-forward terms are added, as the code and its tests do"});
}
