// C22: the log of the graph and the probe against the dependencies declared by the living nodes.
#include "mc.h"

#include <tvm/LinearizedControlProblem.h>
#include <tvm/Task.h>
#include <tvm/Variable.h>
#include <tvm/diagnostic/GraphProbe.h>
#include <tvm/function/IdentityFunction.h>
#include <tvm/function/abstract/Function.h>
#include <tvm/graph/CallGraph.h>
#include <tvm/graph/abstract/Node.h>
#include <tvm/graph/internal/Inputs.h>
#include <tvm/graph/internal/Logger.h>
#include <tvm/task_dynamics/None.h>
#include <tvm/task_dynamics/Proportional.h>
#include <tvm/task_dynamics/ProportionalDerivative.h>
#include <tvm/task_dynamics/VelocityDamper.h>
#include <tvm/utils/ProtoTask.h>

#include <array>
#include <iostream>
#include <map>
#include <memory>
#include <optional>
#include <set>

using namespace mc;
using namespace tvm;
using tvm::diagnostic::GraphProbe;
using tvm::graph::CallGraph;
using tvm::graph::internal::Inputs;
using tvm::graph::internal::Log;
using tvm::graph::internal::Logger;
using Eigen::MatrixXd;
using Eigen::VectorXd;

namespace
{
struct Silent
{
  std::streambuf * old;
  std::ostringstream os;
  Silent() : old(std::cout.rdbuf(os.rdbuf())) {}
  ~Silent() { std::cout.rdbuf(old); }
};

// ------------------------------------------------------------ memory: a few slots, reused last in first out
constexpr size_t SlotSize = 2048;
constexpr int NbSlots = 16;
alignas(64) unsigned char slots[NbSlots][SlotSize];
std::vector<int> freeSlots;
void resetSlots()
{
  freeSlots.clear();
  for(int i = NbSlots; i-- > 0;) freeSlots.push_back(i);
}
struct Pooled
{
  static void * operator new(size_t n)
  {
    if(n > SlotSize || freeSlots.empty()) throw std::bad_alloc();
    int s = freeSlots.back();
    freeSlots.pop_back();
    return slots[s];
  }
  static void operator delete(void * p)
  {
    std::memset(p, 0xDD, SlotSize);
    freeSlots.push_back(int((static_cast<unsigned char *>(p) - slots[0]) / SlotSize));
  }
};
bool dead = false;                        // an accessor was called on something that is not the right living object
std::vector<std::pair<int, int>> executed; // (id, update)

// Note: the address of a node must be that of its Node base (as for all nodes of the library)
struct A : public graph::abstract::Node<A>, public Pooled
{
  SET_OUTPUTS(A, O0, O1, O2)
  SET_UPDATES(A, U0, U1, U2)
  static constexpr unsigned MAGIC = 0xA11CE;
  unsigned magic = MAGIC;
  int id;
  const std::vector<VariablePtr> * vars;
  A(int i, const std::vector<VariablePtr> & v) : id(i), vars(&v)
  { registerUpdates(Update::U0, &A::u<0>, Update::U1, &A::u<1>, Update::U2, &A::u<2>); }
  virtual ~A() { magic = 0; }
  template<int k>
  void u()
  { executed.push_back({id, k}); }
  void check() const
  {
    if(magic != MAGIC) dead = true;
  }
  bool ok() const
  {
    check();
    return magic == MAGIC;
  }
  VectorXd v0() const { return ok() ? VectorXd(VectorXd::Constant(1, 100 * id)) : VectorXd(); }
  VectorXd v1() const { return ok() ? VectorXd(VectorXd::Constant(2, 100 * id + 10)) : VectorXd(); }
  const std::vector<VariablePtr> & variables() const
  {
    static const std::vector<VariablePtr> none;
    return ok() ? *vars : none;
  }
  MatrixXd m(const Variable & x) const
  {
    if(!ok()) return MatrixXd();
    int k = 0;
    while((*vars)[size_t(k)].get() != &x) ++k;
    return MatrixXd::Constant(2, x.size(), 100 * id + 20 + k);
  }
  void out(int o, int u) { addOutputDependency<A>(static_cast<Output_>(o), static_cast<Update_>(u)); }
  void internal(int a, int b) { addInternalDependency<A>(static_cast<Update_>(a), static_cast<Update_>(b)); }
  template<typename S>
  void in(int u, std::shared_ptr<S> s, typename S::Output_ o)
  { addInputDependency<A>(static_cast<Update_>(u), s, o); }
  template<typename S>
  void direct(int o, std::shared_ptr<S> s, typename S::Output_ so)
  { addDirectDependency<A>(static_cast<Output_>(o), s, so); }
};
/** Adds an output and an update. The updates and outputs of A are inherited. */
struct B : public A
{
  SET_OUTPUTS(B, P)
  SET_UPDATES(B, W)
  unsigned magic2 = MAGIC + 1;
  B(int i, const std::vector<VariablePtr> & v) : A(i, v)
  {
    registerUpdates(Update::W, &B::w);
    addOutputDependency<B>(Output::P, Update::W);
    addInternalDependency<B>(Update::W, Update::U0);
  }
  ~B() { magic2 = 0; }
  void w() { executed.push_back({id, 3}); }
  VectorXd p() const
  {
    if(magic != MAGIC || magic2 != MAGIC + 1)
    {
      dead = true;
      return VectorXd();
    }
    return VectorXd::Constant(3, 100 * id + 30);
  }
  using A::in;
  using A::direct;
};
/** Another class, with the same names and numbers of outputs */
struct C : public graph::abstract::Node<C>, public Pooled
{
  SET_OUTPUTS(C, O0, O1)
  SET_UPDATES(C, U0)
  static constexpr unsigned MAGIC = 0xC0FFEE;
  unsigned pad[7] = {};
  unsigned magic = MAGIC;
  int id;
  C(int i) : id(i)
  {
    registerUpdates(Update::U0, &C::u0);
    addOutputDependency<C>(Output::O0, Update::U0);
    addOutputDependency<C>(Output::O1, Update::U0);
  }
  virtual ~C() { magic = 0; }
  void u0() { executed.push_back({id, 0}); }
  VectorXd get(int o) const
  {
    if(magic != MAGIC)
    {
      dead = true;
      return VectorXd();
    }
    return VectorXd::Constant(1, 100 * id + 10 * o);
  }
  VectorXd v0() const { return get(0); }
  VectorXd v1() const { return get(1); }
  template<typename S>
  void in(std::shared_ptr<S> s, typename S::Output_ o)
  { addInputDependency<C>(Update::U0, s, o); }
};

using Out = std::pair<int, int>;  // node, output
using Call = std::pair<int, int>; // node, update

struct Decl
{
  std::map<Out, std::set<int>> outs;
  std::map<Out, Out> direct;
  std::map<Call, std::set<int>> internals;
  std::map<Call, std::set<Out>> ins;
  void closure(std::set<Out> todo, std::set<Out> & os, std::set<Call> & us) const
  {
    while(!todo.empty())
    {
      Out o = *todo.begin();
      todo.erase(todo.begin());
      if(!os.insert(o).second) continue;
      if(direct.count(o)) todo.insert(direct.at(o));
      std::vector<Call> calls;
      if(outs.count(o))
        for(int u : outs.at(o)) calls.push_back({o.first, u});
      while(!calls.empty())
      {
        Call c = calls.back();
        calls.pop_back();
        if(!us.insert(c).second) continue;
        if(internals.count(c))
          for(int u : internals.at(c)) calls.push_back({c.first, u});
        if(ins.count(c))
          for(auto & i : ins.at(c)) todo.insert(i);
      }
    }
  }
};

enum Kind
{
  KA,
  KB,
  KC
};
struct NodeRef
{
  Kind kind = KA;
  std::shared_ptr<A> a; // KA and KB
  std::shared_ptr<C> c;
  uintptr_t address() const
  { return kind == KC ? reinterpret_cast<uintptr_t>(c.get()) : reinterpret_cast<uintptr_t>(a.get()); }
  int nbOut() const { return kind == KA ? 3 : kind == KB ? 4 : 2; }
};
Log::EnumValue outId(Kind k, int o)
{
  if(k == KC) return Log::EnumValue(static_cast<C::Output_>(o));
  if(o == 3) return Log::EnumValue(B::Output::P);
  return Log::EnumValue(static_cast<A::Output_>(o));
}
Log::EnumValue upId(Kind k, int u)
{
  if(k == KC) return Log::EnumValue(static_cast<C::Update_>(u));
  if(u == 3) return Log::EnumValue(B::Update::W);
  return Log::EnumValue(static_cast<A::Update_>(u));
}
std::string outName(int o) { return o == 3 ? "P" : cat("O", o); }
std::string upName(int u) { return u == 3 ? "W" : cat("U", u); }
/** Call f(source, output) with the right type */
template<typename F>
void withSource(const NodeRef & s, int o, F f)
{
  if(s.kind == KC)
    f(s.c, static_cast<C::Output_>(o));
  else if(o == 3)
    f(std::static_pointer_cast<B>(s.a), static_cast<B::Output_>(o));
  else
    f(s.a, static_cast<A::Output_>(o));
}

struct World
{
  std::vector<VariablePtr> vars;
  std::map<int, NodeRef> nodes; // by id
  Decl d;
  bool accessorO1 = true; // is an accessor for A::O1 registered
  World()
  {
    vars = {Space(1).createVariable("x"), Space(2).createVariable("y")};
    resetSlots();
  }
  void setup(GraphProbe & gp) const
  {
    gp.registerAccessor<A>(A::Output::O0, &A::v0);
    if(accessorO1) gp.registerAccessor<A>(A::Output::O1, &A::v1);
    gp.registerAccessor<A>(A::Output::O2, &A::m);
    gp.registerAccessor<B>(A::Output::O0, &B::v0);
    if(accessorO1) gp.registerAccessor<B>(A::Output::O1, &B::v1);
    gp.registerAccessor<B>(A::Output::O2, &B::m);
    gp.registerAccessor<B>(B::Output::P, &B::p);
    gp.registerAccessor<C>(C::Output::O0, &C::v0);
    gp.registerAccessor<C>(C::Output::O1, &C::v1);
  }
  void create(int id, Kind k)
  {
    NodeRef r;
    r.kind = k;
    if(k == KA)
      r.a.reset(new A(id, vars));
    else if(k == KB)
    {
      r.a.reset(static_cast<A *>(new B(id, vars)));
      d.outs[{id, 3}] = {3};
      d.internals[{id, 3}] = {0};
    }
    else
    {
      r.c.reset(new C(id));
      d.outs[{id, 0}] = d.outs[{id, 1}] = {0};
    }
    nodes[id] = r;
  }
  void out(int id, int o, int u)
  {
    nodes[id].a->out(o, u);
    d.outs[{id, o}].insert(u);
  }
  void internal(int id, int a, int b)
  {
    nodes[id].a->internal(a, b);
    d.internals[{id, a}].insert(b);
  }
  void in(int id, int u, int s, int o)
  {
    withSource(nodes[s], o, [&](auto src, auto e) {
      if(nodes[id].kind == KC)
        nodes[id].c->in(src, e);
      else
        nodes[id].a->in(u, src, e);
    });
    d.ins[{id, u}].insert({s, o});
  }
  void direct(int id, int o, int s, int so)
  {
    withSource(nodes[s], so, [&](auto src, auto e) { nodes[id].a->direct(o, src, e); });
    d.direct[{id, o}] = {s, so};
  }
  bool hasAccessor(const Out & o) const
  { return nodes.at(o.first).kind == KC || o.second != 1 || accessorO1; }
  /** (variable or null, value) */
  std::vector<std::pair<VariablePtr, MatrixXd>> value(const Out & o) const
  {
    std::vector<std::pair<VariablePtr, MatrixXd>> r;
    if(!hasAccessor(o)) return r;
    const int id = o.first;
    if(nodes.at(id).kind == KC)
      r.push_back({nullptr, VectorXd::Constant(1, 100 * id + 10 * o.second)});
    else if(o.second == 2)
      for(size_t k = 0; k < vars.size(); ++k)
        r.push_back({vars[k], MatrixXd::Constant(2, vars[k]->size(), 100 * id + 20 + int(k))});
    else
      r.push_back({nullptr, VectorXd::Constant(o.second == 3 ? 3 : o.second + 1, 100 * id + 10 * o.second)});
    return r;
  }
  Log::Output output(const Out & o) const
  {
    const auto & n = nodes.at(o.first);
    auto p = n.kind == KC ? Log::Pointer(n.c.get()) : Log::Pointer(n.a.get());
    return {outId(n.kind, o.second), outName(o.second), p};
  }
  /** The declared output corresponding to a logged one */
  std::optional<Out> find(const Log::Output & l) const
  {
    for(const auto & [id, n] : nodes)
      for(int o = 0; o < n.nbOut(); ++o)
        if(l.owner.value == n.address() && l.id == outId(n.kind, o)) return Out{id, o};
    return std::nullopt;
  }
  std::optional<Call> find(const Log::Update & l) const
  {
    for(const auto & [id, n] : nodes)
      for(int u = 0; u < (n.kind == KA ? 3 : n.kind == KB ? 4 : 1); ++u)
        if(l.owner.value == n.address() && l.id == upId(n.kind, u)) return Call{id, u};
    return std::nullopt;
  }
};

std::string show(const std::set<Out> & s)
{
  std::string r;
  for(auto & o : s) r += cat(o.first, ".", outName(o.second), " ");
  return r;
}

void checkListing(Ctx & c, const World & w, const std::vector<GraphProbe::OutputVal> & l, const std::set<Out> & req)
{
  std::set<Out> os;
  std::set<Call> us;
  w.d.closure(req, os, us);
  std::map<std::pair<Out, Variable *>, int> seen;
  for(const auto & v : l)
  {
    const auto & o = std::get<Log::Output>(v);
    auto k = w.find(o);
    c.check(bool(k), "listed output of no node", [&] { return cat(o.name, " at ", o.owner.value); });
    c.check(o.name == outName(k->second), "name of output", o.name);
    c.check(os.count(*k) > 0, "listed output not needed", [&] { return cat(k->first, ".", o.name, " when requesting ", show(req)); });
    auto var = std::get<VariablePtr>(v);
    c.check(seen[{*k, var.get()}]++ == 0, "output listed twice", [&] { return cat(k->first, ".", o.name); });
    bool found = false;
    for(const auto & e : w.value(*k))
      if(e.first == var)
      {
        found = true;
        const auto & M = std::get<MatrixXd>(v);
        c.check(M.rows() == e.second.rows() && M.cols() == e.second.cols() && M == e.second, "value of output",
                [&] { return cat(k->first, ".", o.name, ": ", M, " instead of ", e.second); });
      }
    c.check(found, "variable of output", "");
  }
  size_t n = 0;
  for(const auto & o : os) n += w.value(o).size();
  c.check(l.size() == n, "needed output not listed",
          [&] { return cat(l.size(), " values instead of ", n, " when requesting ", show(req)); });
  c.check(!dead, "dead object read", "");
}
void checkSub(Ctx & c,
              const World & w,
              const std::pair<std::vector<Log::Output>, std::vector<Log::Update>> & s,
              const std::set<Out> & req)
{
  std::set<Out> os, ro;
  std::set<Call> us, ru;
  w.d.closure(req, os, us);
  for(const auto & o : s.first)
  {
    auto k = w.find(o);
    c.check(bool(k), "logged output of no node", o.name);
    c.check(ro.insert(*k).second, "output twice in the sub-graph", o.name);
  }
  for(const auto & u : s.second)
  {
    auto k = w.find(u);
    c.check(bool(k), "logged update of no node", u.name);
    c.check(u.name == upName(k->second), "name of update", u.name);
    c.check(ru.insert(*k).second, "update twice in the sub-graph", u.name);
  }
  c.check(ro == os, "outputs of the sub-graph", [&] { return show(ro) + "instead of " + show(os); });
  c.check(ru == us, "updates of the sub-graph", [&] { return cat(ru.size(), " instead of ", us.size()); });
}

/** Checks trees whose roots are outputs. selected(o): does the predicate keep the dependencies of o. */
struct TreeCheck
{
  Ctx & c;
  const World & w;
  std::function<bool(const Out &)> selected;
  std::map<Out, int> seenO, expandedO;
  std::map<Call, int> seenU, expandedU;
  int outputs = 0;

  void visit(const GraphProbe::ProbeNode & n)
  {
    std::multiset<Out> co;
    std::multiset<Call> cu;
    for(const auto & ch : n.children)
    {
      c.check(bool(ch), "empty child", "");
      if(ch->val.index() == 0)
      {
        auto k = w.find(mpark::get<Log::Output>(ch->val));
        c.check(bool(k), "unknown output in a tree", mpark::get<Log::Output>(ch->val).name);
        co.insert(*k);
      }
      else
      {
        auto k = w.find(mpark::get<Log::Update>(ch->val));
        c.check(bool(k), "unknown update in a tree", mpark::get<Log::Update>(ch->val).name);
        cu.insert(*k);
      }
    }
    std::multiset<Out> eo;
    std::multiset<Call> eu;
    if(n.val.index() == 0)
    {
      ++outputs;
      auto k = w.find(mpark::get<Log::Output>(n.val));
      c.check(bool(k), "unknown output in a tree", "");
      ++seenO[*k];
      if(w.d.direct.count(*k)) eo.insert(w.d.direct.at(*k));
      if(w.d.outs.count(*k))
        for(int u : w.d.outs.at(*k)) eu.insert({k->first, u});
      if(!n.children.empty())
      {
        c.check(selected(*k), "tree not cut", [&] { return cat(k->first, ".", outName(k->second)); });
        ++expandedO[*k];
      }
      if(eo.empty() && eu.empty()) ++expandedO[*k];
    }
    else
    {
      auto k = w.find(mpark::get<Log::Update>(n.val));
      ++seenU[*k];
      if(w.d.internals.count(*k))
        for(int u : w.d.internals.at(*k)) eu.insert({k->first, u});
      if(w.d.ins.count(*k))
        for(const auto & o : w.d.ins.at(*k)) eo.insert(o);
      if(!n.children.empty() || (eo.empty() && eu.empty())) ++expandedU[*k];
    }
    if(!n.children.empty())
    {
      c.check(co == eo, "dependencies on outputs in a tree", "");
      c.check(cu == eu, "dependencies on updates in a tree", "");
    }
    for(const auto & ch : n.children) visit(*ch);
  }
  /** Every element that was met and should be followed has been, once. */
  void finish()
  {
    for(const auto & s : seenO)
      if(selected(s.first))
        c.check(expandedO[s.first] > 0, "tree cut", [&] { return cat(s.first.first, ".", outName(s.first.second)); });
    for(const auto & s : seenU)
      c.check(expandedU[s.first] > 0, "tree cut at an update", [&] { return cat(s.first.first, ".", upName(s.first.second)); });
  }
};

/** Builds one of many small graphs of n nodes */
void build(Ctx & c, World & w, int n, bool large)
{
  for(int id = 0; id < n; ++id)
  {
    const Kind k = id + 1 == n ? (c.flip() ? KB : KA) : (id == 0 ? (large ? static_cast<Kind>(c.choose(3)) : KB) : (c.flip() ? KC : KA));
    w.create(id, k);
    c.step([&] { return cat("node ", id, " of class ", "ABC"[k]); });
    const auto anySource = [&](int which) {
      // an output of a previous node
      const int s = which % id;
      const int o = (which / id + which) % w.nodes[s].nbOut();
      return Out{s, o};
    };
    if(k == KC)
    {
      if(id)
      {
        const int i = c.choose(3);
        for(int j = 0; j < i; ++j)
        {
          Out o = anySource(j * 2 + 1);
          if(w.d.ins[{id, 0}].count(o)) continue;
          w.in(id, 0, o.first, o.second);
          c.step([&] { return cat("  reads ", o.first, ".", outName(o.second)); });
        }
      }
      continue;
    }
    // O0: an update, two updates, direct or nothing
    const bool fixed = id == 0 && n == 3 && !large; // the first node is not varied in the larger graphs
    const int t = fixed ? 1 : c.choose(id ? 4 : 3);
    if(t == 0 || t == 1)
    {
      w.out(id, 0, 0);
      if(t == 1) w.out(id, 0, 1);
    }
    else if(t == 3)
    {
      Out o = anySource(c.choose(large ? 4 : 2));
      w.direct(id, 0, o.first, o.second);
      c.step([&] { return cat("  O0 is ", o.first, ".", outName(o.second)); });
    }
    w.out(id, 1, 1);
    if(fixed || c.flip())
    {
      w.out(id, 2, 2);
      w.internal(id, 2, 1);
      // two dependencies of a same update
      if(!fixed && n < 3 && c.flip())
      {
        w.internal(id, 2, 0);
        c.step("  U2 <- U0");
      }
    }
    if(fixed || c.flip()) w.internal(id, 1, 0);
    c.step([&] { return cat("  O0 kind ", t, ", O2 <- U2 <- U1: ", w.d.outs.count({id, 2}), ", U1 <- U0: ", w.d.internals.count({id, 1})); });
    if(id)
    {
      const int i = c.choose(large ? 4 : 3);
      for(int j = 0; j < i; ++j)
      {
        Out o = anySource(j + i);
        const int u = j % 2;
        if(w.d.ins[{id, u}].count(o)) continue;
        w.in(id, u, o.first, o.second);
        c.step([&] { return cat("  U", u, " reads ", o.first, ".", outName(o.second)); });
      }
    }
  }
}

// ------------------------------------------------------------------------------------------------- graphs
void graphs(Ctx & c)
{
  World w;
  dead = false;
  executed.clear();
  const int n = 1 + c.choose(3);
  w.accessorO1 = (n < 3 || c.thorough) ? !c.flip() : true;
  build(c, w, n, n < 3 || c.thorough);
  // requests: some outputs of the last nodes, by one or two objects
  std::set<Out> req;
  auto in1 = std::make_shared<Inputs>(), in2 = std::make_shared<Inputs>();
  CallGraph g;
  {
    const int last = n - 1;
    const int r = c.choose(n > 1 ? 6 : 5);
    auto ask = [&](std::shared_ptr<Inputs> i, int id, int o) {
      withSource(w.nodes[id], o, [&](auto s, auto e) { i->addInput(s, e); });
      req.insert({id, o});
      c.step([&] { return cat("request ", id, ".", outName(o)); });
    };
    const int lo = w.nodes[last].nbOut() - 1;
    if(r == 0 || r == 2 || r == 4) ask(in1, last, 0);
    if(r == 1 || r == 2) ask(in1, last, 2);
    if(r == 3) ask(in1, last, lo);
    if(r == 4) ask(in2, last, 0), ask(in2, last, 1);
    if(r == 5) ask(in1, last, 0), ask(in2, last - 1, w.nodes[last - 1].nbOut() - 1);
  }
  g.add(in1);
  g.add(in2);
  g.update();
  g.execute();
  const auto & log = Logger::logger().log();
  GraphProbe gp(log);
  w.setup(gp);
  // the updates of the log are those executed
  std::set<Out> os;
  std::set<Call> us;
  w.d.closure(req, os, us);
  c.check(std::set<Call>(executed.begin(), executed.end()) == us, "model of the graph", "");
  checkSub(c, w, log.subGraph(&g), req);
  checkListing(c, w, gp.listOutputVal(&g), req);
  std::string text;
  std::vector<GraphProbe::OutputVal> verbose;
  {
    Silent s;
    verbose = gp.listOutputVal(&g, true);
    text = s.os.str();
  }
  checkListing(c, w, verbose, req);
  size_t missing = 0, at = 0, nb = 0;
  for(const auto & o : os) missing += !w.hasAccessor(o);
  while((at = text.find("No function to retrieve output", at)) != std::string::npos) ++nb, ++at;
  c.check(nb == missing, "report of outputs without accessor", text);
  for(const auto & [id, node] : w.nodes)
    for(int o = 0; o < node.nbOut(); ++o)
    {
      if(!os.count({id, o}) && !w.d.outs.count({id, o})) continue; // never logged
      checkSub(c, w, log.subGraph(w.output({id, o})), {{id, o}});
      checkListing(c, w, gp.listOutputVal(w.output({id, o})), {{id, o}});
    }
  c.state(Hash().i(n).s(show(os)).i(int64_t(us.size())).i(w.accessorO1));
  if(n == 3 && !c.thorough) return;
  // graphical representation: what is executed is highlighted
  const std::string dot = log.generateDot(&g);
  size_t high = 0;
  std::istringstream lines(dot);
  for(std::string line; std::getline(lines, line);)
    high += line.find("label=") != std::string::npos && line.find("color=orange") != std::string::npos;
  c.check(high == os.size() + us.size(), "highlighted elements", [&] { return cat(high, " instead of ", os.size() + us.size(), "\n", dot.substr(0, 1500)); });
  for(const auto & [id, node] : w.nodes) log.generateDot(node.kind == KC ? Log::Pointer(node.c.get()) : Log::Pointer(node.a.get()));
}

// --------------------------------------------------------------------------------------------- predicates
void predicates(Ctx & c)
{
  World w;
  dead = false;
  w.accessorO1 = c.thorough ? !c.flip() : true;
  const int n = 2 + c.choose(c.thorough ? 2 : 1);
  build(c, w, n, false);
  const int last = n - 1;
  std::set<Out> req;
  auto in = std::make_shared<Inputs>();
  CallGraph g;
  const int r = c.choose(3);
  auto ask = [&](int id, int o) {
    withSource(w.nodes[id], o, [&](auto s, auto e) { in->addInput(s, e); });
    req.insert({id, o});
    c.step([&] { return cat("request ", id, ".", outName(o)); });
  };
  ask(last, r == 1 ? 2 : 0);
  if(r == 2) ask(last, w.nodes[last].nbOut() - 1);
  g.add(in);
  g.update();
  const auto & log = Logger::logger().log();
  GraphProbe gp(log);
  w.setup(gp);
  // the predicate is chosen lazily, value by value
  std::map<int, bool> chosen;
  auto keep = [&](int key) {
    auto it = chosen.find(key);
    if(it == chosen.end())
    {
      it = chosen.insert({key, c.flip()}).first;
      c.step([&] { return cat("value ", key, it->second ? " kept" : " rejected"); });
    }
    return it->second;
  };
  auto select = [&](const MatrixXd & M) { return M.size() ? keep(int(M(0, 0))) : false; };
  auto selected = [&](const Out & o) {
    bool any = false;
    for(const auto & v : w.value(o)) any = keep(int(v.second(0, 0))) || any;
    return any;
  };
  std::string text;
  {
    Silent s;
    const bool fromGraph = c.flip();
    if(fromGraph)
    {
      auto trees = gp.followUp(&g, select);
      std::set<Out> roots;
      for(const auto & t : trees)
      {
        c.check(t && t->val.index() == 0, "root of tree", "");
        auto k = w.find(mpark::get<Log::Output>(t->val));
        c.check(k && req.count(*k), "root that was not requested", "");
        c.check(roots.insert(*k).second, "root twice", "");
        TreeCheck tc{c, w, selected, {}, {}, {}, {}};
        tc.visit(*t);
        tc.finish();
      }
      for(const auto & o : req)
        c.check(roots.count(o) == size_t(selected(o)), "requested outputs kept",
                [&] { return cat(o.first, ".", outName(o.second), roots.count(o) ? " should be cut" : " is missing"); });
      std::ostringstream os;
      gp.print(os, trees);
    }
    else
    {
      const Out o = *req.rbegin();
      auto t = gp.followUp(w.output(o), select);
      c.check(t && t->val.index() == 0 && w.find(mpark::get<Log::Output>(t->val)) == o, "root of tree", "");
      TreeCheck tc{c, w, selected, {}, {}, {}, {}};
      tc.visit(*t);
      tc.finish();
      std::ostringstream os;
      gp.print(os, t);
      const std::string p = os.str();
      int nb = 0;
      for(size_t at = 0; (at = p.find("* Output ", at)) != std::string::npos; ++at) ++nb;
      c.check(nb == tc.outputs, "printed outputs", p);
    }
  }
  c.check(!dead, "dead object read", "");
  Hash h;
  for(auto & k : chosen) h.i(k.first).i(k.second);
  c.state(h.i(n).i(r));
}

// ---------------------------------------------------------------------------------------------- histories
void histories(Ctx & c)
{
  World w;
  dead = false;
  executed.clear();
  GraphProbe gp(Logger::logger().log());
  w.setup(gp);
  std::shared_ptr<Inputs> in = std::make_shared<Inputs>();
  std::set<Out> req;   // current content of in
  std::set<Out> inGraph; // what the graph was built with
  std::optional<CallGraph> g;
  g.emplace();
  bool built = false;
  int fresh = 0;
  std::vector<int> held; // nodes held by the user
  const int depth = c.thorough ? 7 : 6;
  for(int i = 0; i < depth; ++i)
  {
    std::vector<std::function<void()>> ops;
    if(held.size() < 2)
    {
      for(int k = 0; k < 3; ++k)
        ops.push_back([&, k] {
          const int id = fresh++;
          w.create(id, static_cast<Kind>(k));
          if(k != KC) w.out(id, 0, 0);
          if(k == KA) w.out(id, 1, 0); // logged once more after the derived classes
          c.step([&] { return cat("create node ", id, " of class ", "ABC"[k], " in slot ", (reinterpret_cast<unsigned char *>(w.nodes[id].address()) - slots[0]) / int(SlotSize)); });
          if(!held.empty())
          {
            w.in(id, 0, held[0], 0);
            c.step([&] { return cat("  it reads ", held[0], ".O0"); });
          }
          held.push_back(id);
        });
    }
    for(size_t k = 0; k < held.size(); ++k)
    {
      const int id = held[k];
      ops.push_back([&, k, id] {
        c.step([&] { return cat("drop node ", id); });
        auto & n = w.nodes[id];
        n.a.use_count();
        held.erase(held.begin() + int(k));
        // keep only weak knowledge of it
        n.kind = n.kind;
      });
      if(!req.count({id, 0}))
        ops.push_back([&, id] {
          withSource(w.nodes[id], 0, [&](auto s, auto e) { in->addInput(s, e); });
          req.insert({id, 0});
          c.step([&] { return cat("request ", id, ".O0"); });
        });
    }
    for(const auto & o : req)
    {
      ops.push_back([&, o] {
        withSource(w.nodes[o.first], o.second, [&](auto s, auto e) {
          if(c.flip())
            in->removeInput(s.get(), e);
          else
            in->removeInput(s.get());
        });
        req.erase(o);
        c.step([&] { return cat("no longer request ", o.first, ".O0"); });
      });
      break;
    }
    ops.push_back([&] {
      g->clear();
      g->add(in);
      g->update();
      inGraph = req;
      built = true;
      c.step([&] { return std::string("rebuild the graph"); });
    });
    ops.push_back([&] {
      g.reset();
      g.emplace();
      built = false;
      inGraph.clear();
      c.step([&] { return std::string("new graph"); });
    });
    if(built)
      ops.push_back([&] {
        g.reset();
        g.emplace();
        in = std::make_shared<Inputs>();
        built = false;
        inGraph.clear();
        req.clear();
        c.step([&] { return std::string("new graph and new inputs"); });
      });
    ops[size_t(c.choose(int(ops.size())))]();

    // The world forgets the nodes that nobody needs: those not held, not requested and not needed by such nodes
    {
      std::set<Out> roots = req;
      for(int id : held)
        for(int o = 0; o < w.nodes[id].nbOut(); ++o) roots.insert({id, o});
      if(!req.empty() || built) {}
      std::set<int> alive(held.begin(), held.end());
      for(const auto & o : req) alive.insert(o.first);
      bool more = true;
      while(more)
      {
        more = false;
        for(int id : std::set<int>(alive))
          for(const auto & [call, ins] : w.d.ins)
            if(call.first == id)
              for(const auto & o : ins) more = alive.insert(o.first).second || more;
      }
      for(auto it = w.nodes.begin(); it != w.nodes.end();)
        if(!alive.count(it->first))
        {
          const int id = it->first;
          const bool c1 = it->second.kind == KC;
          const long uses = c1 ? it->second.c.use_count() : it->second.a.use_count();
          if(uses > 1)
          {
            ++it; // another dead node holds it, that will be forgotten first or in the next turn
            continue;
          }
          it = w.nodes.erase(it);
          for(auto p = w.d.ins.begin(); p != w.d.ins.end();) p = p->first.first == id ? w.d.ins.erase(p) : std::next(p);
          for(auto p = w.d.outs.begin(); p != w.d.outs.end();) p = p->first.first == id ? w.d.outs.erase(p) : std::next(p);
          for(auto p = w.d.internals.begin(); p != w.d.internals.end();)
            p = p->first.first == id ? w.d.internals.erase(p) : std::next(p);
          it = w.nodes.begin();
        }
        else
          ++it;
    }
    // every living node is described as it is
    for(int id : held)
      for(int o = 0; o < w.nodes[id].nbOut(); ++o)
      {
        if(!w.d.outs.count({id, o})) continue;
        checkSub(c, w, Logger::logger().log().subGraph(w.output({id, o})), {{id, o}});
        checkListing(c, w, gp.listOutputVal(w.output({id, o})), {{id, o}});
        auto t = gp.followUp(w.output({id, o}));
        TreeCheck tc{c, w, [](const Out &) { return true; }, {}, {}, {}, {}};
        tc.visit(*t);
        tc.finish();
      }
    // and so is the graph
    if(!built || inGraph == req)
    {
      checkSub(c, w, Logger::logger().log().subGraph(&*g), built ? req : std::set<Out>());
      checkListing(c, w, gp.listOutputVal(&*g), built ? req : std::set<Out>());
      if(built)
      {
        auto ts = gp.followUp(&*g);
        std::set<Out> roots;
        for(const auto & t : ts)
        {
          auto k = w.find(mpark::get<Log::Output>(t->val));
          c.check(k && roots.insert(*k).second, "root of tree", "");
        }
        c.check(roots == req, "roots of trees", [&] { return show(roots) + "instead of " + show(req); });
      }
      else
      {
        bool threw = false;
        try
        {
          gp.followUp(&*g);
        }
        catch(const std::exception &)
        {
          threw = true;
        }
        c.check(threw, "follow-up of a graph without outputs", "");
      }
    }
    Hash h;
    for(auto & n : w.nodes) h.i(n.second.kind).i(int64_t(n.second.address() - reinterpret_cast<uintptr_t>(slots[0])));
    c.state(h.i(int64_t(req.size())).i(built).i(i));
  }
}

// ------------------------------------------------------------------------------------------------ problems
/** Access to the dependencies that CallGraph reads */
struct Access
{
  std::map<int, std::vector<int>> graph::internal::AbstractNode::* out;
  std::map<int, std::vector<int>> graph::internal::AbstractNode::* internal;
  std::map<int, std::map<graph::abstract::Outputs *, std::set<int>>> graph::internal::AbstractNode::* input;
  std::map<int, std::pair<graph::abstract::Outputs *, int>> graph::internal::AbstractNode::* direct;
};
Access access();
template<auto o, auto i, auto in, auto d>
struct Thief
{
  friend Access access() { return {o, i, in, d}; }
};
using AN = graph::internal::AbstractNode;
template struct Thief<&AN::outputDependencies_, &AN::internalDependencies_, &AN::inputDependencies_, &AN::directDependencies_>;

/** f(x) = x'x/2 - 1 for each variable, summed */
class Sq : public function::abstract::Function
{
public:
  SET_UPDATES(Sq, Value, Jacobian, Velocity, JDot)
  Sq(const std::vector<VariablePtr> & xs) : Function(1)
  {
    registerUpdates(Update::Value, &Sq::uV, Update::Jacobian, &Sq::uJ, Update::Velocity, &Sq::uVel, Update::JDot, &Sq::uJD);
    addOutputDependency<Sq>(Output::Value, Update::Value);
    addOutputDependency<Sq>(Output::Jacobian, Update::Jacobian);
    addOutputDependency<Sq>(Output::Velocity, Update::Velocity);
    addOutputDependency<Sq>({Output::NormalAcceleration, Output::JDot}, Update::JDot);
    addInternalDependency<Sq>(Update::Velocity, Update::Jacobian);
    for(const auto & x : xs) addVariable(x, false);
  }

private:
  void uV()
  {
    value_[0] = -1;
    for(const auto & x : variables()) value_[0] += 0.5 * x->value().squaredNorm();
  }
  void uJ()
  {
    for(const auto & x : variables()) jacobian_[x.get()] = x->value().transpose();
  }
  void uVel()
  {
    velocity_[0] = 0;
    for(const auto & x : variables()) velocity_ += jacobian_[x.get()] * dot(x)->value();
  }
  void uJD()
  {
    normalAcceleration_[0] = 0;
    for(const auto & x : variables())
    {
      JDot_[x.get()] = dot(x)->value().transpose();
      normalAcceleration_[0] += dot(x)->value().squaredNorm();
    }
  }
};

void problems(Ctx & c)
{
  using graph::abstract::Outputs;
  const Access acc = access();
  auto x = VariablePtr(Space(2).createVariable("x")), y = VariablePtr(Space(1).createVariable("y"));
  x->set(Eigen::Vector2d(0.5, 2));
  y->set(VectorXd::Constant(1, -1));
  dot(x)->set(Eigen::Vector2d(0.25, -0.5));
  dot(y)->set(VectorXd::Constant(1, 3));
  auto pb = std::make_shared<LinearizedControlProblem>();
  auto shared = std::make_shared<Sq>(std::vector<VariablePtr>{x, y});
  std::vector<TaskWithRequirementsPtr> tasks;
  GraphProbe gp(Logger::logger().log());
  gp.registerTVMFunction<Sq>();
  const int depth = c.thorough ? 6 : 4;
  for(int i = 0; i < depth; ++i)
  {
    const int nAdd = tasks.size() < 3 ? 5 : 0;
    const int op = c.choose(nAdd + int(std::min<size_t>(tasks.size(), 2)));
    if(op < nAdd)
    {
      namespace td = task_dynamics;
      const VectorXd one = VectorXd::Ones(1), two = VectorXd::Ones(2) * 4;
      switch(op)
      {
        case 0:
          tasks.push_back(pb->add(std::make_shared<Sq>(std::vector<VariablePtr>{x}) == 0., td::P(2)));
          break;
        case 1:
          tasks.push_back(pb->add(shared <= 0.5, td::PD(2)));
          break;
        case 2:
          tasks.push_back(pb->add(-two <= FunctionPtr(std::make_shared<function::IdentityFunction>(x)) <= two, td::VelocityDamper({1, 0.01, 0, 0.1})));
          break;
        case 3:
          tasks.push_back(pb->add(shared >= 0., td::P(1)));
          break;
        case 4:
          tasks.push_back(pb->add(dot(y) == 0., td::None()));
          break;
      }
      c.step([&] { return cat("add task of kind ", op); });
    }
    else
    {
      const size_t k = op - nAdd == 0 ? 0 : tasks.size() - 1;
      pb->remove(*tasks[k]);
      tasks.erase(tasks.begin() + int(k));
      c.step([&] { return cat("remove task ", k); });
    }
    if(c.flip() && i + 1 < depth) continue; // not updated now
    pb->update();
    c.step([&] { return std::string("update"); });
    // closure in the structures used by the call graph
    std::set<std::pair<Outputs *, int>> os;
    std::vector<std::pair<Outputs *, int>> todo;
    std::set<std::pair<AN *, int>> us;
    using Cst = constraint::abstract::Constraint::Output;
    for(const auto & t : tasks)
    {
      auto cs = pb->constraint(*t);
      todo.push_back({cs.get(), int(Cst::Jacobian)});
      switch(t->task.type())
      {
        case constraint::Type::EQUAL:
          todo.push_back({cs.get(), int(Cst::E)});
          break;
        case constraint::Type::GREATER_THAN:
          todo.push_back({cs.get(), int(Cst::L)});
          break;
        case constraint::Type::LOWER_THAN:
          todo.push_back({cs.get(), int(Cst::U)});
          break;
        case constraint::Type::DOUBLE_SIDED:
          todo.push_back({cs.get(), int(Cst::L)});
          todo.push_back({cs.get(), int(Cst::U)});
          break;
      }
    }
    while(!todo.empty())
    {
      auto o = todo.back();
      todo.pop_back();
      if(!os.insert(o).second) continue;
      auto n = dynamic_cast<AN *>(o.first);
      if(!n) continue;
      auto dd = (n->*acc.direct).find(o.second);
      if(dd != (n->*acc.direct).end()) todo.push_back(dd->second);
      auto od = (n->*acc.out).find(o.second);
      std::vector<int> calls;
      if(od != (n->*acc.out).end()) calls = od->second;
      while(!calls.empty())
      {
        int u = calls.back();
        calls.pop_back();
        if(!us.insert({n, u}).second) continue;
        auto id = (n->*acc.internal).find(u);
        if(id != (n->*acc.internal).end()) calls.insert(calls.end(), id->second.begin(), id->second.end());
        auto ip = (n->*acc.input).find(u);
        if(ip != (n->*acc.input).end())
          for(const auto & p : ip->second)
            for(int q : p.second) todo.push_back({p.first, q});
      }
    }
    auto sub = Logger::logger().log().subGraph(&pb->updateGraph());
    auto address = [](Outputs * o) {
      auto n = dynamic_cast<AN *>(o);
      return n ? reinterpret_cast<uintptr_t>(n) : reinterpret_cast<uintptr_t>(o);
    };
    std::set<std::pair<uintptr_t, int>> eo, ro, eu, ru;
    for(const auto & o : os) eo.insert({address(o.first), o.second});
    for(const auto & u : us) eu.insert({reinterpret_cast<uintptr_t>(u.first), u.second});
    for(const auto & o : sub.first)
      c.check(ro.insert({o.owner.value, o.id.value}).second, "output twice in the sub-graph", o.name);
    for(const auto & u : sub.second)
      c.check(ru.insert({u.owner.value, u.id.value}).second, "update twice in the sub-graph", u.name);
    for(const auto & o : sub.first)
      c.check(eo.count({o.owner.value, o.id.value}), "listed output not needed", [&] { return cat(o.name, " of a ", o.owner.type.name()); });
    c.check(ro == eo, "outputs of the sub-graph", [&] { return cat(ro.size(), " instead of ", eo.size()); });
    c.check(ru == eu, "updates of the sub-graph", [&] { return cat(ru.size(), " instead of ", eu.size()); });
    // values
    size_t expected = 0;
    std::map<std::pair<uintptr_t, int>, std::pair<Outputs *, int>> back;
    for(const auto & o : os)
    {
      back[{address(o.first), o.second}] = o;
      using F = function::abstract::Function::Output;
      auto f = dynamic_cast<function::abstract::Function *>(o.first);
      auto k = dynamic_cast<constraint::abstract::Constraint *>(o.first);
      if(f)
        expected += (o.second == int(F::Jacobian) || o.second == int(F::JDot)) ? size_t(f->variables().numberOfVariables()) : 1;
      else if(k)
        expected += (o.second == int(Cst::Jacobian)) ? size_t(k->variables().numberOfVariables()) : 1;
      else if(dynamic_cast<task_dynamics::abstract::TaskDynamicsImpl *>(o.first))
        expected += 1;
    }
    auto l = gp.listOutputVal(&pb->updateGraph());
    c.check(l.size() == expected, "number of values", [&] { return cat(l.size(), " instead of ", expected); });
    for(const auto & v : l)
    {
      const auto & o = std::get<Log::Output>(v);
      const auto & M = std::get<MatrixXd>(v);
      const auto & var = std::get<VariablePtr>(v);
      auto p = back[{o.owner.value, o.id.value}];
      using F = function::abstract::Function::Output;
      MatrixXd e;
      if(auto f = dynamic_cast<function::abstract::Function *>(p.first))
        e = p.second == int(F::Value)       ? MatrixXd(f->value())
            : p.second == int(F::Jacobian)  ? MatrixXd(f->jacobian(*var))
            : p.second == int(F::Velocity)  ? MatrixXd(f->velocity())
            : p.second == int(F::JDot)      ? MatrixXd(f->JDot(*var))
            : p.second == int(F::NormalAcceleration) ? MatrixXd(f->normalAcceleration()) : MatrixXd(M);
      else if(auto k = dynamic_cast<constraint::abstract::Constraint *>(p.first))
        e = p.second == int(Cst::Jacobian) ? MatrixXd(k->jacobian(*var))
            : p.second == int(Cst::Value)  ? MatrixXd(k->value())
            : p.second == int(Cst::L)      ? MatrixXd(k->l())
            : p.second == int(Cst::U)      ? MatrixXd(k->u())
                                           : MatrixXd(k->e());
      else if(auto t = dynamic_cast<task_dynamics::abstract::TaskDynamicsImpl *>(p.first))
        e = t->value();
      c.check(M.rows() == e.rows() && M.cols() == e.cols() && M == e, "value of output",
              [&] { return cat(o.name, ": ", M, " instead of ", e); });
    }
    // every tree has its root among the requested outputs
    if(!tasks.empty())
    {
      Silent s;
      auto ts = gp.followUp(&pb->updateGraph());
      std::set<std::pair<uintptr_t, int>> roots;
      for(const auto & t : ts)
      {
        const auto & o = mpark::get<Log::Output>(t->val);
        c.check(roots.insert({o.owner.value, o.id.value}).second, "root twice", o.name);
        c.check(eo.count({o.owner.value, o.id.value}), "root not requested", o.name);
      }
    }
    c.state(Hash().i(int64_t(tasks.size())).i(int64_t(expected)).i(i));
  }
}
} // namespace

int main(int argc, char ** argv)
{
  std::vector<Driver> drivers = {
      {"graphs",
       "graphs of 1 to 3 nodes of three classes (one derived from another, one with outputs of the same names) x shapes of "
       "output/internal/input/direct dependencies x requests; listing of the graph and of each output, sub-graphs, "
       "graphical representation",
       graphs, 5},
      {"predicates", "graphs of 2 nodes (3 thorough), requests, and all predicates over the values met (chosen lazily)", predicates, 5},
      {"histories",
       "all sequences of 6 (thorough 7) operations: create a node of one of 3 classes (possibly reading another one), drop it, "
       "request/no longer request an output, rebuild or replace the graph; memory slots are reused at once and poisoned",
       histories, 3},
      {"problems", "LinearizedControlProblem: all sequences of 4 (thorough 6) additions of 5 kinds of tasks and removals, updates in between", problems, 3}};
  return run(argc, argv, "C22", drivers,
             {"an output without registered accessor is not listed and cuts the trees (documented)",
              "an element met several times in a tree may be followed at one of its occurrences only",
              "the log describes the graph as of its last (re)construction"});
}
