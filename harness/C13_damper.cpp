// C13: velocity damper along every trajectory of a grid of distances and speeds.
#include "mc.h"

#include <tvm/function/abstract/Function.h>
#include <tvm/task_dynamics/Clamped.h>
#include <tvm/task_dynamics/FeedForward.h>
#include <tvm/task_dynamics/VelocityDamper.h>
#include <tvm/utils/graph.h>

#include <cmath>
#include <memory>
using namespace tvm;
using namespace mc;
using namespace Eigen;
namespace td = tvm::task_dynamics;
using tvm::constraint::Type;

namespace
{
class Fn : public function::abstract::Function
{
public:
  SET_UPDATES(Fn, Value, Velocity)
  VectorXd v, dv; // the truth
  Fn(int n) : Function(n), v(VectorXd::Zero(n)), dv(VectorXd::Zero(n))
  {
    registerUpdates(Update::Value, &Fn::uv, Update::Velocity, &Fn::ud);
    addOutputDependency<Fn>(Output::Value, Update::Value);
    addOutputDependency<Fn>(Output::Velocity, Update::Velocity);
    value_.setConstant(4e5);
    velocity_.setConstant(3e5);
  }

private:
  void uv() { value_ = v; }
  void ud() { velocity_ = dv; }
};
class Provider : public tvm::graph::abstract::Node<Provider>
{
public:
  SET_OUTPUTS(Provider, Value)
  SET_UPDATES(Provider, Value)
  VectorXd truth, cache;
  Provider(int n) : truth(VectorXd::Zero(n)), cache(VectorXd::Constant(n, 9e5))
  {
    registerUpdates(Update::Value, &Provider::u);
    addOutputDependency(Output::Value, Update::Value);
  }
  const VectorXd & value() const { return cache; }
  void u() { cache = truth; }
};
/** One row: what the documentation says, in terms of distance and speed of the distance */
struct Row
{
  double di, ds, xsi, off; // xsi == 0: automatic
  bool active = false;
  double cur = 0; // xsi fixed at entry
  bool known = false;
  bool inside(double d) const { return d <= di; }
  /** lower limit on the derivative of the distance, if inside */
  double limit(double d, double dd)
  {
    if(xsi > 0) return -xsi * (d - ds) / (di - ds);
    if(d > di)
    {
      active = false;
      return 0;
    }
    if(!active)
    {
      if(d == ds) return 0; // xsi is not defined there, the limit is
      active = true;
      cur = -(di - ds) / (d - ds) * dd + off;
    }
    return -cur * (d - ds) / (di - ds);
  }
};
bool near(double a, double b) { return std::abs(a - b) <= 1e-9 * (1 + std::abs(b)); }

/** crossing: automatic damping only, three places per row (outside of the influence zone, and two places in it), so that long trajectories are covered*/
void trajectory(Ctx & c, int n, int depth, bool wrap, bool crossing = false)
{
  bool second = c.flip(), automatic = crossing || c.flip(), aniso = n > 1 && c.flip();
  Type t = std::vector<Type>{Type::GREATER_THAN, Type::LOWER_THAN, Type::EQUAL, Type::DOUBLE_SIDED}[static_cast<size_t>(c.choose(c.thorough ? 4 : 2))];
  double s = t == Type::LOWER_THAN ? -1 : 1;
  int cfg = c.choose(crossing ? 1 : n == 1 && !c.thorough && !wrap ? 2 : 3);
  double big = (cfg + c.choose(c.thorough ? 2 : 1)) % 2 ? 50 : constant::big_number, dt = 0.25;
  std::vector<Row> rows;
  VectorXd vdi(n), vds(n), vxsi(n), voff(n);
  for(int i = 0; i < n; ++i)
  {
    int k = aniso ? (cfg + i) % 3 : cfg;
    static const double dis[] = {2, 1, 1.5}, dss[] = {1, 0, 0.5}, xs[] = {1, 2, 0.5}, offs[] = {0, 0.5, 2};
    rows.push_back({dis[k], dss[k], automatic ? 0 : xs[k], offs[k]});
    vdi[i] = dis[k];
    vds[i] = dss[k];
    vxsi[i] = automatic ? 0 : xs[k];
    voff[i] = offs[k];
  }
  auto f = std::make_shared<Fn>(n);
  VectorXd rhs(n);
  for(int i = 0; i < n; ++i) rhs[i] = cfg == 0 ? 0 : 0.5 - i;
  std::shared_ptr<td::abstract::TaskDynamicsImpl> impl;
  auto p = std::make_shared<Provider>(n);
  int w = wrap ? 1 + c.choose(3) : 0;
  auto met = &Provider::value;
  auto sig = Provider::Output::Value;
  auto build = [&](auto &&... a) {
    typedef td::VelocityDamper VD;
    auto fin = [&](const td::abstract::TaskDynamics & d) {
      c.check(d.order() == (second ? td::Order::Two : td::Order::One), "order", "order");
      impl = d.impl(f, t, rhs);
    };
    if(w == 0) fin(VD(a...));
    if(w == 1) fin(td::Clamped<VD>(0.75, a...));
    if(w == 2) fin(td::FeedForward<VD>(p, met, sig, a...));
    if(w == 3) fin(td::Clamped<td::FeedForward<VD>>(0.75, p, met, sig, a...));
  };
  c.step([&] { return cat(second ? "second" : "first", " order, ", automatic ? "automatic" : "fixed", " xsi, di=[", vdi.transpose(), "] ds=[", vds.transpose(), "] xsi=[", vxsi.transpose(), "] off=[", voff.transpose(), "] rhs=[", rhs.transpose(), "], ", s > 0 ? "f >= rhs" : "f <= rhs", " wrapper ", w); });
  if(aniso)
  {
    bool noOff = !automatic && cfg == 0;
    td::VelocityDamper::AnisotropicConfig conf = noOff ? td::VelocityDamper::AnisotropicConfig(vdi, vds, vxsi) : td::VelocityDamper::AnisotropicConfig(vdi, vds, vxsi, VectorConstRef(voff));
    if(second)
      build(dt, conf, big);
    else
      build(conf, big);
  }
  else
  {
    td::VelocityDamper::Config conf(vdi[0], vds[0], vxsi[0], voff[0]);
    if(second)
      build(dt, conf, big);
    else
      build(conf, big);
  }
  c.check(impl->order() == (second ? td::Order::Two : td::Order::One), "order", "order of the implementation");
  auto gr = utils::generateUpdateGraph(impl, td::abstract::TaskDynamicsImpl::Output::Value);
  int len = depth; // every step is verified: shorter ones are included
  for(int k = 0; k < len; ++k)
  {
    std::vector<double> ds(static_cast<size_t>(n)), dds(static_cast<size_t>(n));
    for(int i = 0; i < n; ++i)
    {
      Row & r = rows[static_cast<size_t>(i)];
      const double grid[] = {r.di + 1, (r.di + r.ds) / 2, r.ds, r.ds - 0.5, r.di, r.ds + 0.125};
      static const double speeds[] = {-2, 1, 0};
      double d, dd;
      if(crossing)
      {
        int z = c.choose(3);
        d = z == 2 ? r.ds + 0.125 : grid[z];
        dd = z == 0 ? 0 : speeds[z - 1];
      }
      else
      {
        d = grid[c.choose(n == 1 ? 6 : 4)];
        dd = speeds[c.choose(n == 1 ? 3 : 2)];
      }
      ds[static_cast<size_t>(i)] = d;
      dds[static_cast<size_t>(i)] = dd;
      f->v[i] = rhs[i] + s * d;
      f->dv[i] = s * dd;
      p->truth[i] = 0.25 * (i + 1) * (k % 2 ? -1 : 1);
    }
    c.step([&] {
      std::string o = "d =";
      for(int i = 0; i < n; ++i) o += cat(" ", ds[static_cast<size_t>(i)], " (speed ", dds[static_cast<size_t>(i)], ")");
      return o;
    });
    gr->execute();
    VectorXd e(n);
    for(int i = 0; i < n; ++i)
    {
      Row & r = rows[static_cast<size_t>(i)];
      double d = ds[static_cast<size_t>(i)], dd = dds[static_cast<size_t>(i)];
      bool entering = automatic && !r.active && d <= r.di;
      double l = r.limit(d, dd);
      double got = impl->value()[i];
      if(d > r.di)
        e[i] = -s * big;
      else
        e[i] = s * (second ? (l - dd) / dt : l);
      if(w == 0)
      {
        c.check(std::isfinite(got), "finite", [&] { return cat("row ", i, ": value ", got, " at distance ", d); });
        // the documented guarantees, stated on the velocity allowed by the output
        double allowed = second ? dd + dt * s * got : s * got; // lower bound on the speed of the distance
        if(d <= r.di && d == r.ds) c.check(near(allowed, 0), "zero-at-safety", [&] { return cat("row ", i, ": limit ", allowed, " at the safety distance"); });
        if(!automatic && d < r.ds) c.check(allowed > 0, "retreat", [&] { return cat("row ", i, ": limit ", allowed, " below the safety distance"); });
        if(!automatic && d <= r.di && d > r.ds) c.check(allowed < 0, "approach", [&] { return cat("row ", i, ": limit ", allowed, " above the safety distance"); });
        if(entering && d != r.ds) c.check(near(allowed, dd - r.off * (d - r.ds) / (r.di - r.ds)), "continuous", [&] { return cat("row ", i, ": limit ", allowed, " with current speed ", dd, " when entering"); });
      }
    }
    if(w >= 2) e += p->truth;
    if(w == 1 || w == 3)
    {
      double m = e.cwiseAbs().maxCoeff();
      if(m > 0.75) e *= 0.75 / m;
    }
    for(int i = 0; i < n; ++i)
      c.check(near(impl->value()[i], e[i]), "law", [&] { return cat("value [", impl->value().transpose(), "], expected [", e.transpose(), "]"); });
  }
  Hash h;
  h.m(impl->value());
  for(auto & r : rows) h.i(r.active).d(r.cur);
  c.state(h);
}

void refusals(Ctx & c)
{
  int what = c.choose(4);
  bool expected = true, got = false;
  static const double v[] = {-1, 0, 0.5, 1, 2};
  auto throws = [](auto && f) {
    try
    {
      f();
    }
    catch(const std::exception &)
    {
      return true;
    }
    return false;
  };
  typedef td::VelocityDamper VD;
  c.step([&] { return cat("case ", what); });
  if(what == 0) // scalar configuration
  {
    double di = v[c.choose(5)], ds = v[c.choose(5)], xsi = v[c.choose(5)], off = v[c.choose(5)];
    c.step([&] { return cat("Config(", di, ",", ds, ",", xsi, ",", off, ")"); });
    expected = di <= ds || ds < 0 || xsi < 0 || off < 0;
    got = throws([&] { VD::Config x(di, ds, xsi, off); (void)x; });
  }
  else if(what == 1) // anisotropic configuration, values
  {
    VectorXd a[4];
    for(auto & x : a)
    {
      x.resize(2);
    }
    int bad = c.choose(4);
    for(int k = 0; k < 4; ++k)
      for(int i = 0; i < 2; ++i) a[k][i] = k == 0 ? 3 : k == bad || bad == 0 ? v[c.choose(5)] : 0.5;
    if(bad == 0) a[0] << v[c.choose(5)], v[c.choose(5)];
    c.step([&] { return cat("AnisotropicConfig([", a[0].transpose(), "],[", a[1].transpose(), "],[", a[2].transpose(), "],[", a[3].transpose(), "])"); });
    expected = false;
    for(int i = 0; i < 2; ++i) expected = expected || a[0][i] <= a[1][i] || a[1][i] < 0 || a[2][i] < 0 || a[3][i] < 0;
    expected = expected || ((a[2][0] == 0) != (a[2][1] == 0));
    got = throws([&] { VD::AnisotropicConfig x(a[0], a[1], a[2], VectorConstRef(a[3])); (void)x; });
  }
  else if(what == 2) // sizes
  {
    int n[4], m = 1 + c.choose(3);
    bool off = c.flip();
    for(int k = 0; k < 4; ++k) n[k] = k == 3 && !off ? n[0] : 1 + c.choose(3);
    bool autom = c.flip(), same = n[0] == n[1] && n[0] == n[2] && n[0] == n[3];
    expected = !same || (n[0] != m && n[0] != 1);
    c.step([&] { return cat("sizes ", n[0], " ", n[1], " ", n[2], " ", n[3], " for a function of size ", m); });
    auto f = std::make_shared<Fn>(m);
    bool second = c.flip();
    got = throws([&] {
      VectorXd di = VectorXd::Constant(n[0], 2), ds = VectorXd::Constant(n[1], 1), xsi = VectorXd::Constant(n[2], autom ? 0 : 1), o = VectorXd::Ones(n[3]);
      VD::AnisotropicConfig x = off ? VD::AnisotropicConfig(di, ds, xsi, VectorConstRef(o)) : VD::AnisotropicConfig(di, ds, xsi);
      if(second)
        VD(0.1, x).impl(f, Type::GREATER_THAN, VectorXd::Zero(m));
      else
        VD(x).impl(f, Type::GREATER_THAN, VectorXd::Zero(m));
    });
  }
  else // dt and big
  {
    bool an = c.flip(), hasdt = c.flip();
    double dt = hasdt ? v[c.choose(5)] : 1, big = v[c.choose(5)];
    expected = dt <= 0 || big <= 0;
    VD::Config x(2, 1, 1);
    c.step([&] { return cat("dt ", dt, " big ", big); });
    got = throws([&] {
      if(an && hasdt)
        VD(dt, VD::AnisotropicConfig(x), big);
      else if(an)
        VD(VD::AnisotropicConfig(x), big);
      else if(hasdt)
        VD(dt, x, big);
      else
        VD(x, big);
    });
  }
  c.check(got == expected, "refused", [&] { return expected ? "invalid parameters accepted" : "valid parameters refused"; });
  c.state(Hash().i(what).i(expected));
}
std::vector<Driver> drivers()
{
  return {
      {"one-row", "every trajectory of 4 steps over 6 distances x 3 speeds, 2 (thorough: 3) configurations, order, fixed/automatic, sign", [](Ctx & c) { trajectory(c, 1, 4, false); }, 5},
      {"two-rows", "two rows: every trajectory of 2 (thorough: 3) steps over 4 distances x 2 speeds per row, uniform or per-row configurations", [](Ctx & c) { trajectory(c, 2, c.thorough ? 3 : 2, false); }, 5},
      {"crossings", "automatic damping, two rows (thorough: and three), uniform or per-row configurations: every trajectory of 5 (three rows: 4) steps in which each row is outside of its influence zone or at two places in it", [](Ctx & c) {
         int n = c.thorough ? 2 + c.choose(2) : 2;
         trajectory(c, n, n == 2 ? 5 : 4, false, true);
       }, 5},
      {"wrapped", "the same inside clamping and feed-forward, one row (thorough: two), 3 (2) steps", [](Ctx & c) { trajectory(c, c.thorough ? 2 : 1, c.thorough ? 2 : 3, true); }, 5},
      {"refusals", "every valid and invalid parameter of small sets", refusals, 2}};
}
} // namespace
int main(int argc, char ** argv)
{
  return run(argc, argv, "C13", drivers(), {"distances and speeds from the grids described in the drivers", "the output is a lower limit on the derivative of f for f >= rhs, an upper limit for f <= rhs"});
}
