// C05: the update plan of a graph of nodes against the definition (closure, exactly once, dependencies first).
#include "mc.h"

#include <tvm/graph/CallGraph.h>
#include <tvm/graph/abstract/Node.h>
#include <tvm/graph/internal/Inputs.h>

#include <map>
#include <memory>
#include <set>

using namespace mc;
using tvm::graph::CallGraph;
using tvm::graph::internal::Inputs;

namespace
{
std::vector<std::pair<int, int>> calls; // (node, update) in order of execution

/** A node with 3 outputs and 3 updates; the derived class adds one of each */
struct N : public tvm::graph::abstract::Node<N>
{
  SET_OUTPUTS(N, O0, O1, O2)
  SET_UPDATES(N, U0, U1, U2)
  int id;
  explicit N(int i) : id(i)
  {
    registerUpdates(Update::U0, &N::u<0>, Update::U1, &N::u<1>, Update::U2, &N::u<2>);
  }
  template<int k>
  void u()
  { calls.push_back({id, k}); }
  void out(int o, int u) { addOutputDependency<N>(static_cast<Output_>(o), static_cast<Update_>(u)); }
  void internal(int a, int b) { addInternalDependency<N>(static_cast<Update_>(a), static_cast<Update_>(b)); }
  void in(int u, N & s, int o) { addInputDependency<N>(static_cast<Update_>(u), s, static_cast<Output_>(o)); }
  void direct(int o, N & s, int so) { addDirectDependency<N>(static_cast<Output_>(o), s, static_cast<Output_>(so)); }
};

using Call = std::pair<int, int>; // (node, update)
using Out = std::pair<int, int>;  // (node, output)

/** The declared graph */
struct Decl
{
  std::map<Out, std::set<int>> outs;          // output -> updates of the same node
  std::map<Out, Out> direct;                  // output -> output
  std::map<Call, std::set<int>> internals;    // update -> updates of the same node
  std::map<Call, std::set<Out>> ins;          // update -> outputs of nodes

  /** updates on which an output directly rests; false when direct dependencies loop */
  bool of(const Out & o, std::set<Call> & r) const
  {
    std::set<Out> seen;
    Out c = o;
    while(direct.count(c))
    {
      if(!seen.insert(c).second) return false;
      c = direct.at(c);
    }
    auto it = outs.find(c);
    if(it != outs.end())
      for(int u : it->second) r.insert({c.first, u});
    return true;
  }
  bool deps(const Call & c, std::set<Call> & r) const
  {
    auto i = internals.find(c);
    if(i != internals.end())
      for(int u : i->second) r.insert({c.first, u});
    auto j = ins.find(c);
    if(j != ins.end())
      for(auto & o : j->second)
        if(!of(o, r)) return false;
    return true;
  }
  /** Needed calls and their dependencies. False when there is a cycle. */
  bool closure(const std::set<Out> & req, std::map<Call, std::set<Call>> & need) const
  {
    std::vector<Call> todo;
    for(auto & o : req)
    {
      std::set<Call> r;
      if(!of(o, r)) return false;
      todo.insert(todo.end(), r.begin(), r.end());
    }
    while(!todo.empty())
    {
      Call c = todo.back();
      todo.pop_back();
      if(need.count(c)) continue;
      auto & d = need[c];
      if(!deps(c, d)) return false;
      todo.insert(todo.end(), d.begin(), d.end());
    }
    // acyclic?
    std::set<Call> done;
    bool progress = true;
    while(progress)
    {
      progress = false;
      for(auto & n : need)
        if(!done.count(n.first))
        {
          bool ok = true;
          for(auto & d : n.second) ok = ok && done.count(d);
          if(ok) done.insert(n.first), progress = true;
        }
    }
    return done.size() == need.size();
  }
};

struct World
{
  std::vector<std::unique_ptr<N>> n;
  Decl d;
  std::string text;
  explicit World(int k)
  {
    for(int i = 0; i < k; ++i) n.emplace_back(new N(i));
  }
  void out(int i, int o, int u)
  {
    n[static_cast<size_t>(i)]->out(o, u);
    d.outs[{i, o}].insert(u);
    text += cat(" ", i, ".O", o, "<-U", u);
  }
  void internal(int i, int a, int b)
  {
    n[static_cast<size_t>(i)]->internal(a, b);
    d.internals[{i, a}].insert(b);
    text += cat(" ", i, ".U", a, "<-U", b);
  }
  void in(int i, int u, int s, int o)
  {
    n[static_cast<size_t>(i)]->in(u, *n[static_cast<size_t>(s)], o);
    d.ins[{i, u}].insert({s, o});
    text += cat(" ", i, ".U", u, "<-", s, ".O", o);
  }
  void direct(int i, int o, int s, int so)
  {
    n[static_cast<size_t>(i)]->direct(o, *n[static_cast<size_t>(s)], so);
    d.direct[{i, o}] = {s, so};
    text += cat(" ", i, ".O", o, "<=", s, ".O", so);
  }
  std::shared_ptr<Inputs> inputs(const std::vector<Out> & req)
  {
    auto r = std::make_shared<Inputs>();
    for(auto & o : req) r->addInput(*n[static_cast<size_t>(o.first)], static_cast<N::Output_>(o.second));
    return r;
  }
};

std::string show(const std::set<Out> & r)
{
  std::string s;
  for(auto & o : r) s += cat(" ", o.first, ".O", o.second);
  return s;
}

/** Plan of the graph for the outputs requested so far. Returns false if refused. */
bool verify(Ctx & c, World & w, CallGraph & g, const std::set<Out> & req, bool addThrew)
{
  std::map<Call, std::set<Call>> need;
  bool acyclic = w.d.closure(req, need);
  bool threw = addThrew;
  if(!threw)
  {
    try
    {
      g.update();
    }
    catch(const std::exception &)
    {
      threw = true;
    }
  }
  c.step([&] { return cat("plan for", show(req), " in", w.text); });
  c.check(threw == !acyclic, threw ? "refused" : "cycle-accepted",
          [&] { return cat("plan for", show(req), " in", w.text, threw ? ": refused without a cycle" : ": cycle not reported"); });
  Hash h;
  h.i(threw);
  if(!threw)
  {
    for(int k = 0; k < 2; ++k) // executing twice does the same thing
    {
      calls.clear();
      g.execute();
      std::set<Call> done;
      for(auto & x : calls)
      {
        auto it = need.find(x);
        c.check(it != need.end(), "useless-call", [&] { return cat("plan for", show(req), " in", w.text, ": update ", x.first, ".U", x.second, " is not needed"); });
        for(auto & dep : it->second)
          c.check(done.count(dep), "order", [&] {
            return cat("plan for", show(req), " in", w.text, ": update ", x.first, ".U", x.second, " called before ", dep.first, ".U", dep.second);
          });
        c.check(done.insert(x).second, "twice", [&] { return cat("plan for", show(req), " in", w.text, ": update ", x.first, ".U", x.second, " called twice"); });
        h.i(x.first * 10 + x.second);
      }
      c.check(done.size() == need.size(), "missing-call", [&] {
        std::string s = cat("plan for", show(req), " in", w.text, ": not called:");
        for(auto & x : need)
          if(!done.count(x.first)) s += cat(" ", x.first.first, ".U", x.first.second);
        return s;
      });
    }
  }
  c.state(h);
  return !threw;
}

bool tryAdd(CallGraph & g, std::shared_ptr<Inputs> i)
{
  try
  {
    g.add(i);
  }
  catch(const std::exception &)
  {
    return true;
  }
  return false;
}

/** Requests: first one, then a second one on top, then from scratch after a clear */
void requests(Ctx & c, World & w, const std::vector<Out> & outs)
{
  int n = static_cast<int>(outs.size());
  int m = 1 + c.choose((1 << n) - 1);
  std::vector<Out> A, B;
  for(int i = 0; i < n; ++i) ((m >> i & 1) ? A : B).push_back(outs[static_cast<size_t>(i)]);
  CallGraph g;
  std::set<Out> req(A.begin(), A.end());
  auto ia = w.inputs(A);
  bool ok = verify(c, w, g, req, tryAdd(g, ia));
  if(ok && !B.empty())
  {
    // request the others as well
    auto ib = w.inputs(B);
    req.insert(B.begin(), B.end());
    verify(c, w, g, req, tryAdd(g, ib));
  }
  // clear (even after a refusal), request only the last ones
  g.clear();
  calls.clear();
  g.execute();
  c.check(calls.empty(), "clear", "a cleared graph still calls updates");
  const auto & last = B.empty() ? A : B;
  auto il = w.inputs(last);
  verify(c, w, g, std::set<Out>(last.begin(), last.end()), tryAdd(g, il));
}

/** One node: all internal dependencies between its 3 updates, all dependencies of 2 outputs */
void oneNode(Ctx & c)
{
  World w(1);
  int in = c.choose(1 << 9), o0 = c.choose(8), o1 = c.choose(8);
  for(int a = 0; a < 3; ++a)
    for(int b = 0; b < 3; ++b)
      if(in >> (3 * a + b) & 1) w.internal(0, a, b);
  for(int u = 0; u < 3; ++u)
  {
    if(o0 >> u & 1) w.out(0, 0, u);
    if(o1 >> u & 1) w.out(0, 1, u);
  }
  requests(c, w, {{0, 0}, {0, 1}});
}

/** Two nodes with 2 updates and 2 outputs each */
void twoNodes(Ctx & c)
{
  World w(2);
  // outputs: a subset of the updates, or the output of the other node
  for(int i = 0; i < 2; ++i)
    for(int o = 0; o < 2; ++o)
    {
      int k = c.choose(c.thorough ? 6 : 5);
      if(k < 4)
      {
        for(int u = 0; u < 2; ++u)
          if(k >> u & 1) w.out(i, o, u);
      }
      else
        w.direct(i, o, 1 - i, k == 4 ? o : 1 - o);
    }
  for(int i = 0; i < 2; ++i)
  {
    int k = c.choose(c.thorough ? 4 : 2); // internal dependencies
    if(k & 1) w.internal(i, 0, 1);
    if(k & 2) w.internal(i, 1, 0);
  }
  for(int i = 0; i < 2; ++i)
    for(int u = 0; u < 2; ++u)
    {
      int k = c.choose(c.thorough || u == 0 ? 4 : 2);
      for(int o = 0; o < 2; ++o)
        if(k >> o & 1) w.in(i, u, 1 - i, o);
    }
  if(c.thorough)
    requests(c, w, {{0, 0}, {0, 1}, {1, 0}, {1, 1}});
  else
    requests(c, w, {{0, 0}, {1, 1}});
}

/** n nodes with one update and one output each: an output rests on nothing, on the update, or is that of another node;
 * an update uses the outputs of any others, itself included */
void manyNodes(Ctx & c, int n, bool self)
{
  World w(n);
  std::vector<Out> outs;
  for(int i = 0; i < n; ++i)
  {
    int k = c.choose(n + 1);
    if(k == n)
    {
    }
    else if(k == i)
      w.out(i, 0, 0);
    else
      w.direct(i, 0, k, 0);
    outs.push_back({i, 0});
  }
  for(int i = 0; i < n; ++i)
  {
    int k = c.choose(self ? 1 << n : 1 << (n - 1));
    for(int j = 0, b = 0; j < n; ++j)
      if(self || j != i)
      {
        if(k >> b & 1) w.in(i, 0, j, 0);
        ++b;
      }
  }
  if(n <= 3)
    requests(c, w, outs);
  else
  {
    // a plan for the first node then for all of them
    CallGraph g;
    std::set<Out> req{{0, 0}};
    auto ia = w.inputs({{0, 0}});
    if(verify(c, w, g, req, tryAdd(g, ia)))
    {
      auto ib = w.inputs(outs);
      verify(c, w, g, std::set<Out>(outs.begin(), outs.end()), tryAdd(g, ib));
    }
  }
}

/** All histories of requests and removals on a fixed graph with shared computations */
void histories(Ctx & c)
{
  World w(4);
  // 3 uses 1 and 2 which use 0; 1 has a second, independent output, a direct one
  w.out(0, 0, 0);
  w.out(0, 1, 1);
  w.internal(0, 1, 0);
  w.out(1, 0, 0);
  w.out(1, 0, 1);
  w.in(1, 0, 0, 0);
  w.direct(1, 1, 0, 1);
  w.out(2, 0, 0);
  w.in(2, 0, 0, 1);
  w.out(3, 0, 0);
  w.in(3, 0, 1, 0);
  w.in(3, 0, 2, 0);
  w.out(3, 1, 2);
  w.in(3, 2, 1, 1);
  w.direct(2, 1, 3, 1);
  w.text = " the fixed graph";
  static const std::vector<Out> outs = {{0, 0}, {1, 0}, {1, 1}, {2, 0}, {2, 1}, {3, 0}, {3, 1}};
  CallGraph g;
  auto in = std::make_shared<Inputs>(); // as the problems do: one set of inputs, modified, the graph rebuilt
  std::set<Out> kept, req;
  int depth = c.thorough ? 5 : 4;
  for(int d = 0; d < depth; ++d)
  {
    int op = c.choose(4);
    if(op == 0) return;
    if(op == 1) // one more request on the same graph
    {
      Out o = c.pick(outs);
      c.step([&] { return cat("request ", o.first, ".O", o.second); });
      req.insert(o);
      kept.insert(o);
      in->addInput(*w.n[static_cast<size_t>(o.first)], static_cast<N::Output_>(o.second));
      g.add(w.inputs({o}));
    }
    else if(op == 2) // an input less, the graph rebuilt
    {
      if(kept.empty()) c.prune();
      std::vector<Out> k(kept.begin(), kept.end());
      Out o = c.pick(k);
      c.step([&] { return cat("remove ", o.first, ".O", o.second, " and rebuild"); });
      in->removeInput(w.n[static_cast<size_t>(o.first)].get(), static_cast<N::Output_>(o.second));
      kept.erase(o);
      req = kept;
      g.clear();
      g.add(in);
    }
    else // a node less, the graph rebuilt
    {
      if(kept.empty()) c.prune();
      int k = kept.begin()->first;
      c.step([&] { return cat("remove the inputs from ", k, " and rebuild"); });
      in->removeInput(w.n[static_cast<size_t>(k)].get());
      for(auto it = kept.begin(); it != kept.end();) it = it->first == k ? kept.erase(it) : std::next(it);
      req = kept;
      g.clear();
      g.add(in);
    }
    verify(c, w, g, req, false);
  }
}

/** Without update: a stale plan is not changed until the update */
} // namespace

int main(int argc, char ** argv)
{
  return run(argc, argv, "C05",
             {{"one-node", "one node: all 512 internal dependency relations of 3 updates, all dependencies of 2 outputs, all requests, one more request, clear", oneNode, 2},
              {"two-nodes", "two nodes with 2 outputs and 2 updates: output, direct, internal and input dependencies, cyclic or not, with requests", twoNodes, 3},
              {"three-nodes", "three nodes with 1 output and 1 update: all output, direct and input dependencies (itself included), cyclic or not, all requests", [](Ctx & c) { manyNodes(c, 3, true); }, 3},
              {"four-nodes", "four nodes with 1 output and 1 update: all output, direct and input dependencies, cyclic or not (one input relation fixed in the quick run)",
               [](Ctx & c) { manyNodes(c, 4, false); }, 4},
              {"histories", "a fixed graph of 4 nodes: all sequences of 4 (5) requests and removals of inputs or nodes", histories, 3}},
             {"direct dependencies of an output on itself included as cycles"});
}
