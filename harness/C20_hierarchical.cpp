// C20: each priority level of a hierarchical problem gets exactly its own tasks.
#include "hier.h" // pipe
using namespace hier;

namespace
{
SolvingRequirements req(Spec & s, int p, int kind)
{
  s.priority = p;
  int m = static_cast<int>(s.J.rows());
  Vec a(m);
  for(int i = 0; i < m; ++i) a[i] = std::vector<double>{4, 0.25, 9}[static_cast<size_t>(i)];
  switch(kind)
  {
    case 1:
      s.weight = 4;
      return {PriorityLevel(p), Weight(4)};
    case 2:
      s.aniso = a;
      return {PriorityLevel(p), AnisotropicWeight(a)};
    case 3:
      s.weight = 0.25;
      s.aniso = a;
      return {PriorityLevel(p), Weight(0.25), AnisotropicWeight(a)};
  }
  return {PriorityLevel(p)};
}

/** n tasks of the palette, on levels 0 to 3 */
void tasks(Ctx & c, int n, const std::vector<int> & pal, int levels, int kinds, bool all)
{
  Std w;
  Options o = options(c, all);
  tvm::LinearizedControlProblem pb;
  std::vector<Spec> specs;
  int prev = -1;
  std::vector<int> ids;
  for(int i = 0; i < n; ++i)
  {
    int left = static_cast<int>(pal.size()) - prev - 1 - (n - 1 - i);
    prev = prev + 1 + c.choose(left);
    ids.push_back(pal[static_cast<size_t>(prev)]);
  }
  if(n > 1 && c.flip()) std::reverse(ids.begin(), ids.end());
  for(int id : ids)
  {
    auto & e = palette()[static_cast<size_t>(id)];
    auto t = e.make(w);
    int p = c.choose(levels);
    int k = c.choose(kinds);
    auto r = req(t.second, p, k);
    c.step([&] { return cat("task ", e.name, " priority ", p, k == 0 ? "" : k == 1 ? " weight 4" : k == 2 ? " anisotropic weight" : " weight 0.25 and anisotropic weight"); });
    pb.add(t.first, r);
    specs.push_back(t.second);
  }
  auto s = scheme(o);
  solveAndCheck(c, w, pb, *s, specs, o);
  c.step("again");
  solveAndCheck(c, w, pb, *s, specs, o);
}

/** edits between solves */
void edits(Ctx & c)
{
  Std w;
  Options o;
  o.feasible = c.flip();
  o.damping = o.warm = !o.feasible || c.thorough;
  c.step([&] { return o.show(); });
  tvm::LinearizedControlProblem pb;
  struct It
  {
    Task t;
    Spec s;
    tvm::TaskWithRequirementsPtr tr;
  };
  std::vector<It> it;
  for(int id : {0, 12, 14, 20})
  {
    auto t = palette()[static_cast<size_t>(id)].make(w);
    it.push_back({t.first, t.second, nullptr});
  }
  auto s = scheme(o);
  auto solve = [&] {
    std::vector<Spec> v;
    for(auto & t : it)
      if(t.tr) v.push_back(t.s);
    c.step("solve");
    solveAndCheck(c, w, pb, *s, v, o);
  };
  int init = c.choose(3);
  auto add = [&](It & t) { t.tr = t.s.aniso.size() ? pb.add(t.t, {PriorityLevel(t.s.priority), Weight(t.s.weight), AnisotropicWeight(t.s.aniso)}) : pb.add(t.t, {PriorityLevel(t.s.priority), Weight(t.s.weight)}); };
  if(init >= 1)
  {
    add(it[0]);
    it[3].s.priority = 2;
    add(it[3]);
  }
  if(init == 2)
  {
    it[1].s.priority = 1;
    add(it[1]);
    add(it[2]);
  }
  c.step([&] { return cat("initial tasks ", init == 0 ? "none" : init == 1 ? "0, 3 (level 2)" : "0, 1 (level 1), 2, 3 (level 2)"); });
  if(c.flip()) solve();
  int depth = c.thorough ? 4 : 3;
  for(int d = 0; d < depth; ++d)
  {
    auto & t = it[static_cast<size_t>(c.choose(4))];
    size_t i = static_cast<size_t>(&t - it.data());
    int op = c.choose(4);
    if(op > 0 && !t.tr) c.prune();
    switch(op)
    {
      case 0:
        c.step([&] { return cat(t.tr ? "remove task " : "add task ", i); });
        if(t.tr)
        {
          pb.remove(*t.tr);
          t.tr.reset();
        }
        else
          add(t);
        break;
      case 1:
        t.s.weight = t.s.weight == 1 ? 4 : 1;
        c.step([&] { return cat("weight ", t.s.weight, " for task ", i); });
        t.tr->requirements.weight() = t.s.weight;
        break;
      case 2:
        t.s.aniso = Vec::LinSpaced(t.s.J.rows(), 4, t.s.aniso.size() ? 1 : 9);
        c.step([&] { return cat("anisotropic weight for task ", i); });
        t.tr->requirements.anisotropicWeight() = t.s.aniso;
        break;
      case 3:
        t.s.priority = (t.s.priority + 1) % 3;
        c.step([&] { return cat("priority ", t.s.priority, " for task ", i); });
        t.tr->requirements.priorityLevel() = t.s.priority;
        break;
    }
    if(d == depth - 1 || c.flip()) solve();
  }
}
std::vector<int> iota(int n)
{
  std::vector<int> v;
  for(int i = 0; i < n; ++i) v.push_back(i);
  return v;
}
} // namespace

int main(int argc, char ** argv)
{
  return run(argc, argv, "C20",
             {{"single", "every task of a palette of 24, on levels 0 to 3, every kind of weight, every option", [](Ctx & c) { tasks(c, 1, iota(24), 4, 4, true); }, 2},
              {"pairs", "every pair of tasks of the palette in both orders on levels 0 to 3, with and without weight", [](Ctx & c) { tasks(c, 2, iota(24), 4, 2, false); }, 3},
              {"triples", "triples of 9 tasks (all in thorough) on levels 0 to 2", [](Ctx & c) { if(c.thorough) tasks(c, 3, iota(24), 3, 1, false); else tasks(c, 3, {0, 2, 5, 7, 10, 12, 15, 20, 22}, 3, 1, false); }, 4},
              {"quadruples", "quadruples of 6 (8) tasks on levels 0 to 3", [](Ctx & c) { if(c.thorough) tasks(c, 4, {0, 2, 5, 7, 10, 12, 15, 20}, 4, 1, false); else tasks(c, 4, {0, 5, 7, 12, 15, 20}, 4, 1, false); }, 4},
              {"edits", "all sequences of 3 (4) additions, removals, changes of weights and priorities of 4 tasks, with or without a solve after each", edits, 4}},
             {"The numerical back-end is a stand-in with the calling conventions of LexLS; the library's own wrapper is the real code",
              "Levels without rows are not counted; rows are compared up to their order in a level and their sign",
              "Weights of tasks given as bounds are not considered",
              "Absolute values above 1e100 count as absent bounds"});
}
