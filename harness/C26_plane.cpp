// C26: planes and clocks given to a problem say what their provider last said, and are brought up to date before use.
#include "mc.h"

#include <tvm/Clock.h>
#include <tvm/geometry/Plane.h>
#include <tvm/graph/CallGraph.h>
#include <tvm/graph/abstract/Node.h>
#include <tvm/graph/internal/Inputs.h>

#include <Eigen/Core>
#include <memory>

using namespace mc;
using Eigen::Vector3d;
using tvm::Clock;
using tvm::geometry::Plane;
using tvm::graph::CallGraph;
using tvm::graph::internal::Inputs;

namespace
{
/** What the documentation says of a plane */
struct Model
{
  Vector3d n, p = Vector3d::Zero(), nd = Vector3d::Zero(), s = Vector3d::Zero(), ndd = Vector3d::Zero(), a = Vector3d::Zero();
  double offset;
  void point(const Vector3d & n_, const Vector3d & p_)
  {
    n = n_;
    p = p_;
    offset = -n.dot(p);
  }
  void off(const Vector3d & n_, double o)
  {
    n = n_;
    offset = o;
  }
  std::string diff(const Plane & q) const
  {
    if(q.normal() != n) return cat("normal [", q.normal().transpose(), "], expected [", n.transpose(), "]");
    if(!(std::abs(q.offset() - offset) < 1e-12)) return cat("offset ", q.offset(), ", expected ", offset);
    if(q.point() != p) return cat("point [", q.point().transpose(), "], expected [", p.transpose(), "]");
    if(q.normalDot() != nd) return cat("normal derivative [", q.normalDot().transpose(), "], expected [", nd.transpose(), "]");
    if(q.speed() != s) return cat("speed [", q.speed().transpose(), "], expected [", s.transpose(), "]");
    if(q.normalDotDot() != ndd) return cat("normal second derivative [", q.normalDotDot().transpose(), "], expected [", ndd.transpose(), "]");
    if(q.acceleration() != a) return cat("acceleration [", q.acceleration().transpose(), "], expected [", a.transpose(), "]");
    return "";
  }
  Hash hash() const
  {
    Hash h;
    return h.m(n).m(p).m(nd).m(s).m(ndd).m(a).d(offset);
  }
};
const Vector3d & vec(int i)
{
  static const Vector3d v[] = {{0, 0, 1}, {1, 2, -3}, {0.5, -1, 0}, {4, 0, 2}};
  return v[i];
}

void values(Ctx & c)
{
  Model m;
  std::unique_ptr<Plane> q;
  int k = c.choose(4);
  if(k < 2)
  {
    m.off(vec(k), k - 0.5);
    q = std::make_unique<Plane>(vec(k), k - 0.5);
  }
  else
  {
    m.point(vec(k), vec(1));
    q = std::make_unique<Plane>(vec(k), vec(1));
  }
  c.step([&] { return cat("constructor ", k); });
  auto check = [&] {
    std::string d = m.diff(*q);
    c.check(d.empty(), "value", [&] { return d; });
  };
  check();
  int len = c.thorough ? 5 : 4;
  for(int i = 0; i < len; ++i)
  {
    int op = c.choose(4), a = c.choose(4), b = c.choose(2);
    c.step([&] { return cat(op == 0 ? "normal and point " : op == 1 ? "normal and offset " : op == 2 ? "velocity " : "acceleration ", a, " ", b); });
    switch(op)
    {
      case 0:
        m.point(vec(a), vec(b));
        q->position(vec(a), vec(b));
        break;
      case 1:
        m.off(vec(a), 2. - b);
        q->position(vec(a), 2. - b);
        break;
      case 2:
        m.nd = vec(a);
        m.s = vec(b);
        q->velocity(vec(a), vec(b));
        break;
      case 3:
        m.ndd = vec(a);
        m.a = vec(b);
        q->acceleration(vec(a), vec(b));
    }
    check();
  }
  c.state(m.hash());
}

/** Moves a plane with the time of a clock */
struct Integrator : public tvm::graph::abstract::Node<Integrator>
{
  SET_OUTPUTS(Integrator, A, B, C)
  SET_UPDATES(Integrator, P, V, Acc)
  std::shared_ptr<Clock> clock;
  Plane * plane = nullptr;
  int calls[3] = {0, 0, 0};
  Integrator(const std::shared_ptr<Clock> & c, int perm) : clock(c)
  {
    registerUpdates(Update::P, &Integrator::p, Update::V, &Integrator::v, Update::Acc, &Integrator::a);
    for(int i = 0; i < 3; ++i)
    {
      addInputDependency<Integrator>(static_cast<Update_>(i), clock, Clock::Output::Time);
      addOutputDependency<Integrator>(static_cast<Output_>(out(perm, i)), static_cast<Update_>(i));
    }
  }
  /** output given by update i */
  static int out(int perm, int i)
  {
    static const int ps[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
    return ps[perm][i];
  }
  double t() const { return static_cast<double>(clock->ticks()) * clock->dt(); }
  void p()
  {
    ++calls[0];
    plane->position(vec(1), vec(2) + t() * vec(3));
  }
  void v()
  {
    ++calls[1];
    plane->velocity(t() * vec(1), vec(3));
  }
  void a()
  {
    ++calls[2];
    plane->acceleration(vec(0), t() * vec(2));
  }
};

/** Reads a plane */
struct Reader : public tvm::graph::abstract::Node<Reader>
{
  SET_OUTPUTS(Reader, R)
  SET_UPDATES(Reader, U)
  Plane & plane;
  Vector3d p, s, a;
  double offset = 0;
  int calls = 0;
  Reader(Plane & q, int outs) : plane(q)
  {
    registerUpdates(Update::U, &Reader::u);
    addOutputDependency<Reader>(Output::R, Update::U);
    for(int i = 0; i < 3; ++i)
      if(outs >> i & 1) addInputDependency<Reader>(Update::U, plane, static_cast<Plane::Output_>(static_cast<int>(Plane::Output::Position) + i));
  }
  void u()
  {
    ++calls;
    p = plane.point();
    s = plane.normalDot();
    a = plane.acceleration();
    offset = plane.offset();
  }
};

void integrators(Ctx & c)
{
  auto clock = std::make_shared<Clock>(std::vector<double>{1, 0.25}[static_cast<size_t>(c.choose(2))]);
  int perm = c.choose(6);
  auto in = std::make_shared<Integrator>(clock, perm);
  auto plane = std::make_shared<Plane>(vec(0), vec(1));
  in->plane = plane.get();
  auto o = [&](int i) { return static_cast<Integrator::Output_>(Integrator::out(perm, i)); };
  bool ref = c.flip();
  if(ref)
    plane->setIntegrator(*in, o(0), o(1), o(2));
  else
    plane->setIntegrator(in, o(0), o(1), o(2));
  int readers = 1 + c.choose(2), outs[2] = {0, 0};
  std::vector<std::shared_ptr<Reader>> rd;
  auto inputs = std::make_shared<Inputs>();
  int direct = c.choose(8); // outputs of the plane requested by the problem itself
  for(int i = 0; i < readers; ++i)
  {
    outs[i] = 1 + c.choose(7);
    rd.push_back(std::make_shared<Reader>(*plane, outs[i]));
  }
  c.step([&] { return cat("clock of step ", clock->dt(), ", outputs of the integrator in order ", perm, ref ? ", given by reference" : "", ", readers of ", outs[0], " ", outs[1], ", requested ", direct); });
  bool first = c.flip();
  auto request = [&] {
    for(int i = 0; i < 3; ++i)
      if(direct >> i & 1) inputs->addInput(plane, static_cast<Plane::Output_>(static_cast<int>(Plane::Output::Position) + i));
  };
  if(first) request();
  for(auto & r : rd) inputs->addInput(r, Reader::Output::R);
  if(!first) request();
  CallGraph g;
  g.add(inputs);
  g.update();
  int needed = direct | outs[0] | outs[1];
  uint64_t ticks = 0;
  int n = 0;
  for(int k = 0; k < 3; ++k)
  {
    if(c.flip())
    {
      clock->advance();
      ++ticks;
      c.step("advance the clock");
    }
    c.check(clock->ticks() == ticks, "ticks", [&] { return cat(clock->ticks(), " ticks after ", ticks, " advances"); });
    g.execute();
    ++n;
    c.step("execute");
    double t = static_cast<double>(ticks) * clock->dt();
    for(int i = 0; i < 3; ++i)
      c.check(in->calls[i] == (needed >> i & 1 ? n : 0), "calls", [&] { return cat("update ", i, " of the integrator was run ", in->calls[i], " times in ", n, " executions"); });
    for(int i = 0; i < readers; ++i)
    {
      auto & r = *rd[static_cast<size_t>(i)];
      c.check(r.calls == n, "reader-calls", [&] { return cat("reader run ", r.calls, " times"); });
      if(outs[i] & 1)
      {
        Vector3d p = vec(2) + t * vec(3);
        c.check(r.p == p && std::abs(r.offset + vec(1).dot(p)) < 1e-12, "stale", [&] { return cat("the reader saw the point [", r.p.transpose(), "] at time ", t); });
      }
      if(outs[i] & 2) c.check(r.s == t * vec(1), "stale", [&] { return cat("the reader saw the normal derivative [", r.s.transpose(), "] at time ", t); });
      if(outs[i] & 4) c.check(r.a == t * vec(2), "stale", [&] { return cat("the reader saw the acceleration [", r.a.transpose(), "] at time ", t); });
    }
  }
  c.state(Hash().i(needed).i(static_cast<int64_t>(ticks)).i(perm).m(plane->point()));
}

std::vector<Driver> drivers()
{
  return {{"values", "every sequence of 4 (thorough: 5) settings of the position (point or offset), velocity and acceleration, from both constructors", values, 3},
          {"integrators", "a plane moved by an integrator following a clock: every correspondence of outputs, one or two readers of any outputs of the plane, any outputs requested directly, both ways of giving the integrator, 3 executions with the clock advanced or not before each", integrators, 4}};
}
} // namespace
int main(int argc, char ** argv)
{
  return run(argc, argv, "C26", drivers(), {"4 vectors", "as documented, a plane updates nothing by itself but the offset when the point is changed: the point is left as it was when the offset is given"});
}
