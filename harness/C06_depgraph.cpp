// C06: DependencyGraph against the mathematical directed graph.
#include "mc.h"

#include <tvm/graph/internal/DependencyGraph.h>

#include <algorithm>
#include <set>

using tvm::graph::internal::DependencyGraph;
using mc::cat;
using mc::Ctx;

namespace
{
using Edge = std::pair<size_t, size_t>;
struct Model
{
  size_t n = 0;
  std::set<Edge> e;
  std::vector<std::vector<bool>> reach() const
  {
    std::vector<std::vector<bool>> r(n, std::vector<bool>(n, false));
    for(auto & p : e) r[p.first][p.second] = true;
    for(size_t k = 0; k < n; ++k)
      for(size_t i = 0; i < n; ++i)
        for(size_t j = 0; j < n; ++j)
          if(r[i][k] && r[k][j]) r[i][j] = true;
    return r;
  }
};

std::string show(const Model & m)
{
  std::string s = cat("n=", m.n, " edges:");
  for(auto & p : m.e) s += cat(" ", p.first, "->", p.second);
  return s;
}

void verify(Ctx & c, const DependencyGraph & g, const Model & m)
{
  auto ctx = [&]() { return show(m); };
  c.check(g.size() == m.n, "size", ctx);
  c.check(g.edges() == m.e, "edges", ctx);
  auto r = m.reach();
  bool cyclic = false;
  for(size_t i = 0; i < m.n; ++i) cyclic = cyclic || r[i][i];

  // flat order
  mc::Hash h;
  bool thrown = false;
  std::vector<size_t> o;
  c.step([&]() { return "order() on " + show(m); });
  try
  {
    o = g.order();
  }
  catch(const std::exception &)
  {
    thrown = true;
  }
  if(cyclic)
    c.check(thrown, "cyclic graph ordered", [&]() { return cat(show(m), " returned an order of ", o.size(), " nodes"); });
  else
  {
    c.check(!thrown, "acyclic graph refused", ctx);
    std::vector<int> pos(m.n, -1);
    c.check(o.size() == m.n, "order does not list each node once", ctx);
    for(size_t i = 0; i < o.size(); ++i)
    {
      c.check(o[i] < m.n && pos[o[i]] == -1, "order does not list each node once", ctx);
      pos[o[i]] = static_cast<int>(i);
    }
    for(auto & p : m.e) c.check(pos[p.second] < pos[p.first], "dependency after dependent", ctx);
    for(auto i : o) h.i((int64_t)i);
  }
  // grouped order
  thrown = false;
  std::vector<std::vector<size_t>> go;
  c.step([&]() { return std::string("groupedOrder()"); });
  try
  {
    go = g.groupedOrder();
  }
  catch(const std::exception &)
  {
    thrown = true;
  }
  if(cyclic)
    c.check(thrown, "cyclic graph ordered by groups", ctx);
  else
  {
    c.check(!thrown, "acyclic graph refused by groupedOrder", ctx);
    // weakly connected components
    std::vector<size_t> comp(m.n);
    for(size_t i = 0; i < m.n; ++i) comp[i] = i;
    for(size_t k = 0; k < m.n; ++k)
      for(auto & p : m.e) comp[p.first] = comp[p.second] = std::min(comp[p.first], comp[p.second]);
    std::set<size_t> ids(comp.begin(), comp.end());
    c.check(go.size() == ids.size(), "wrong number of groups", ctx);
    std::vector<int> pos(m.n, -1);
    int k = 0;
    for(auto & grp : go)
    {
      c.check(!grp.empty(), "empty group", ctx);
      for(auto i : grp)
      {
        c.check(i < m.n && pos[i] == -1, "node listed twice in groups", ctx);
        c.check(comp[i] == comp[grp.front()], "group mixes unconnected nodes", ctx);
        pos[i] = k++;
        h.i((int64_t)i);
      }
    }
    c.check(k == (int)m.n, "groups miss a node", ctx);
    for(auto & p : m.e) c.check(pos[p.second] < pos[p.first], "dependency after dependent in a group", ctx);
  }
  // reduction
  c.step([&]() { return std::string("reduce()"); });
  auto red = g.reduce();
  auto same = [&](size_t i, size_t j) { return i == j || (r[i][j] && r[j][i]); };
  std::vector<int> scc(m.n, -1);
  for(size_t k = 0; k < red.first.size(); ++k)
  {
    c.check(!red.first[k].empty(), "empty component", ctx);
    for(auto i : red.first[k])
    {
      c.check(i < m.n && scc[i] == -1, "node in two components", ctx);
      scc[i] = static_cast<int>(k);
      h.i((int64_t)i);
    }
  }
  for(size_t i = 0; i < m.n; ++i)
    for(size_t j = 0; j < m.n; ++j)
    {
      c.check(scc[i] >= 0, "node without component", ctx);
      c.check((scc[i] == scc[j]) == same(i, j), "wrong strongly connected components", ctx);
    }
  std::set<Edge> re;
  for(auto & p : m.e)
    if(scc[p.first] != scc[p.second]) re.insert({(size_t)scc[p.first], (size_t)scc[p.second]});
  c.check(red.second.size() == red.first.size(), "reduced graph size", ctx);
  c.check(red.second.edges() == re, "reduced graph edges", ctx);
  std::vector<size_t> ro;
  try
  {
    ro = red.second.order();
  }
  catch(const std::exception &)
  {
    c.fail("reduced graph refused", show(m));
  }
  c.check(ro.size() == red.first.size(), "reduced graph order incomplete", ctx);
  std::vector<int> rp(red.first.size(), -1);
  for(size_t i = 0; i < ro.size(); ++i) rp[ro[i]] = (int)i;
  for(auto & p : re) c.check(rp[p.second] < rp[p.first], "reduced graph order", ctx);
  for(auto & p : m.e) h.i((int64_t)(p.first * 8 + p.second));
  c.state(h.i((int64_t)m.n).i(cyclic));
}

bool addEdge(Ctx & c, DependencyGraph & g, Model & m, size_t i, size_t j)
{
  c.step([&]() { return cat("addEdge(", i, ",", j, ")"); });
  bool isNew = g.addEdge(i, j);
  bool exp = m.e.insert({i, j}).second;
  c.check(isNew == exp, "addEdge return value", [&]() { return show(m); });
  return isNew;
}
void addNode(Ctx & c, DependencyGraph & g, Model & m)
{
  c.step([&]() { return std::string("addNode()"); });
  c.check(g.addNode() == m.n, "addNode id", [&]() { return show(m); });
  ++m.n;
}
void removeNode(Ctx & c, DependencyGraph & g, Model & m, size_t id)
{
  c.step([&]() { return cat("removeNode(", id, ")"); });
  g.removeNode(id);
  std::set<Edge> e;
  for(auto p : m.e)
    if(p.first != id && p.second != id) e.insert({p.first - (p.first > id), p.second - (p.second > id)});
  m.e = e;
  --m.n;
}

/** Build the graph whose edges are chosen one by one, inserted in one of the given orders. */
void chooseGraph(Ctx & c, DependencyGraph & g, Model & m, size_t n, bool self)
{
  std::vector<Edge> all;
  for(size_t i = 0; i < n; ++i)
    for(size_t j = 0; j < n; ++j)
      if(i != j || self) all.push_back({i, j});
  int ord = c.choose(3);
  if(ord == 1) std::reverse(all.begin(), all.end());
  if(ord == 2) std::sort(all.begin(), all.end(), [](const Edge & a, const Edge & b) { return std::make_pair(a.second, b.first) < std::make_pair(b.second, a.first); });
  for(size_t i = 0; i < n; ++i) addNode(c, g, m);
  for(auto & p : all)
    if(c.flip()) addEdge(c, g, m, p.first, p.second);
}

void digraphs(Ctx & c)
{
  DependencyGraph g;
  Model m;
  size_t n = (size_t)c.choose(5);
  chooseGraph(c, g, m, n, true);
  verify(c, g, m);
}
void digraphs5(Ctx & c)
{
  DependencyGraph g;
  Model m;
  if(!c.thorough)
  {
    // 5 nodes, edges i->j with i<j under two numberings of the nodes (all DAGs up to relabelling), plus one back edge
    std::vector<size_t> perm = {0, 1, 2, 3, 4};
    if(c.flip()) perm = {3, 0, 4, 1, 2};
    for(int i = 0; i < 5; ++i) addNode(c, g, m);
    for(size_t i = 0; i < 5; ++i)
      for(size_t j = i + 1; j < 5; ++j)
        if(c.flip()) addEdge(c, g, m, perm[i], perm[j]);
    int back = c.choose(11);
    if(back)
    {
      int k = 0;
      for(size_t i = 0; i < 5; ++i)
        for(size_t j = 0; j < i; ++j)
          if(++k == back) addEdge(c, g, m, perm[i], perm[j]);
    }
  }
  else
    chooseGraph(c, g, m, 5, false);
  verify(c, g, m);
}
void removal(Ctx & c)
{
  DependencyGraph g;
  Model m;
  size_t n = (size_t)c.choose(4) + 1;
  chooseGraph(c, g, m, n, n < 4);
  while(m.n > 0)
  {
    removeNode(c, g, m, (size_t)c.choose((int)m.n));
    verify(c, g, m);
    if(m.n == 2) break;
  }
  // reuse after removal
  if(m.n == 2)
  {
    addNode(c, g, m);
    int k = c.choose(4);
    if(k & 1) addEdge(c, g, m, 2, 0);
    if(k & 2) addEdge(c, g, m, 1, 2);
    verify(c, g, m);
  }
}
void sparse(Ctx & c)
{
  // more nodes, few edges: components joined in every order (edges i-j in every orientation)
  DependencyGraph g;
  Model m;
  size_t n = c.thorough ? 7 : 6;
  int left = static_cast<int>(n) - 1;
  for(size_t i = 0; i < n; ++i) addNode(c, g, m);
  int k = -1, last = static_cast<int>(n * (n - 1));
  while(left--)
  {
    int s = c.choose(last - k);
    if(s == 0) break;
    k += s;
    size_t i = static_cast<size_t>(k) / (n - 1), j = static_cast<size_t>(k) % (n - 1);
    addEdge(c, g, m, i, j + (j >= i));
    if(k == last - 1) break;
  }
  verify(c, g, m);
}
void history(Ctx & c)
{
  DependencyGraph g;
  Model m;
  int depth = c.thorough ? 9 : 8;
  for(int d = 0; d < depth; ++d)
  {
    // simplest first
    int nOps = 2 + (m.n < 3) + (int)(m.n * m.n) + (int)m.n;
    int op = c.choose(nOps);
    if(op == 0) break;
    --op;
    if(op == 0)
    {
      c.step([] { return std::string("clear()"); });
      g.clear();
      m = Model();
      continue;
    }
    --op;
    if(m.n < 3)
    {
      if(op == 0)
      {
        addNode(c, g, m);
        continue;
      }
      --op;
    }
    if(op < (int)(m.n * m.n))
    {
      addEdge(c, g, m, (size_t)op / m.n, (size_t)op % m.n);
      continue;
    }
    removeNode(c, g, m, (size_t)(op - (int)(m.n * m.n)));
  }
  verify(c, g, m);
}
} // namespace

int main(int argc, char ** argv)
{
  return mc::run(argc, argv, "C06",
                 {{"digraphs", "all directed graphs with self loops on 0..4 nodes, 3 edge insertion orders", digraphs, 6},
                  {"digraphs5", "5 nodes: all graphs i<j under two labellings with at most one back edge (quick), all directed graphs without self loop, 3 insertion orders (thorough)", digraphs5, 6},
                  {"removal", "all graphs on 1..4 nodes, all removal sequences, reuse after removal", removal, 6},
                  {"sparse", "all directed graphs on 6 (thorough: 7) nodes with less edges than nodes", sparse, 3},
                  {"history", "all sequences of addNode/addEdge/removeNode/clear up to depth 8 (thorough: 9) on at most 3 nodes", history, 4}},
                 {"graphs of at most 5 nodes (6 or 7 when they have few edges)"});
}
