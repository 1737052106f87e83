// C01: the data handed to the numerical solver are exactly the stated problem.
#include "pipe_tasks.h"
using namespace pipe_;
using namespace mc;
using tvm::requirements::AnisotropicWeight;
using tvm::requirements::PriorityLevel;
using tvm::requirements::SolvingRequirements;
using tvm::requirements::Weight;

namespace
{
/** requirement variants (priority, weight, anisotropic) */
struct Req
{
  int p;
  double w;
  int aniso; // 0 none, 1 distinct entries, 2 constant ones
};

SolvingRequirements req(const Req & r, int m, Spec & s)
{
  s.priority = r.p;
  s.weight = r.w;
  Vec a(m);
  for(int i = 0; i < m; ++i) a[i] = r.aniso == 2 ? 1. : std::vector<double>{4, 0.25, 9}[static_cast<size_t>(i)];
  if(r.aniso) s.aniso = a;
  if(r.aniso && r.w == 1.) return {PriorityLevel(r.p), AnisotropicWeight(a)};
  if(r.aniso) return {PriorityLevel(r.p), Weight(r.w), AnisotropicWeight(a)};
  if(r.w == 1.) return {PriorityLevel(r.p)};
  return {PriorityLevel(r.p), Weight(r.w)};
}

void checkProblem(Ctx & c, Std & w, const std::vector<std::pair<Task, Spec>> & tasks, const std::vector<SolvingRequirements> & reqs,
                  int backend, double scal, bool damp)
{
  std::vector<Spec> specs;
  for(auto & t : tasks) specs.push_back(t.second);
  tvm::LinearizedControlProblem pb;
  std::vector<tvm::TaskWithRequirementsPtr> added;
  for(size_t i = 0; i < tasks.size(); ++i) added.push_back(pb.add(tasks[i].first, reqs[i]));
  auto scheme = makeScheme(backend, damp, scal);
  Canon want = expected(specs, w.N, scal, damp);
  int nObj = want.nObjRows, nGen = 0;
  Observation o = observe(w, pb, *scheme);
  c.check(o.called, "solver-not-called", [&] { return std::string("the numerical solver was not called"); });
  c.check(o.bad.empty(), "bad-call", [&] { return o.bad; });
  c.check(o.solved, "status", [&] { return std::string("solve returned false although the solver succeeded"); });
  std::string d = compare(o.canon, want, true);
  c.check(d.empty(), "data", [&] { return std::string(backendName(backend)) + ": " + d + " raw " + show(o.p); });
  // each row of the solver data belongs to a task row
  bool dbl = backend == LSSOL || backend == LEXLS || backend == LEXLS_WARM || backend == DEFAULT;
  std::vector<int> maybe; // rows of the tasks that may be handled as bounds
  for(auto & s : specs)
  {
    if(s.priority) continue;
    // rows that depend on one unknown each, on distinct unknowns of a single variable, square: may be bounds
    bool diag = true;
    int vars = 0;
    for(auto & v : w.vars)
    {
      int st = w.off.at(v.get());
      bool u = false;
      for(int i = 0; i < v->size(); ++i) u = u || s.uses[static_cast<size_t>(st + i)];
      if(u) ++vars;
    }
    int nu = 0;
    for(bool u : s.uses) nu += u;
    int k = 0;
    for(int i = 0; i < w.N; ++i)
      if(s.uses[static_cast<size_t>(i)])
      {
        for(int r = 0; r < s.J.rows(); ++r)
          if((s.J(r, i) != 0) != (r == k)) diag = false;
        ++k;
      }
    int rows = static_cast<int>(s.J.rows()) * (s.type == Type::DOUBLE_SIDED && !dbl ? 2 : 1);
    if(vars == 1 && diag && nu == s.J.rows())
      maybe.push_back(rows);
    else
      nGen += rows;
  }
  // a task on distinct unknowns may be handled as bounds or as general rows; quadprog has no separate bounds: they are
  // two more rows per unknown
  bool rowsOk = false;
  for(size_t m = 0; m < (size_t(1) << maybe.size()); ++m)
  {
    int k = nGen;
    bool bounds = false;
    for(size_t i = 0; i < maybe.size(); ++i)
      if(m >> i & 1)
        k += maybe[i];
      else
        bounds = true;
    if(bounds && (backend == QUADPROG || backend == QUADPROG_CHOL)) k += 2 * o.p.n;
    rowsOk = rowsOk || k == o.p.nGeneralRows;
  }
  c.check(rowsOk, "row-count", [&] { return cat(backendName(backend), " received ", o.p.nGeneralRows, " rows of constraints, the problem has ", nGen, " rows that cannot be bounds; ", show(o.p)); });
  if(o.p.nObjRows >= 0) c.check(o.p.nObjRows == nObj, "row-count", [&] { return cat(backendName(backend), " received ", o.p.nObjRows, " rows of objectives, the problem has ", nObj); });
  c.state(Hash().m(o.canon.Q).m(o.canon.c).i(static_cast<int64_t>(o.canon.hs.size())).i(backend).i(o.p.n));
  // solving again without touching anything gives the same data
  Observation o2 = observe(w, pb, *scheme);
  std::string d2 = o2.bad.empty() && o2.called ? compare(o2.canon, want, true) : "not called again: " + o2.bad;
  c.check(d2.empty(), "second-solve", [&] { return d2; });
  // another weight for the objectives, one after the other
  for(size_t i = tasks.size(); i-- > 0;)
  {
    if(!specs[i].priority || specs[i].weight == 0) continue;
    specs[i].weight *= 2.25;
    added[i]->requirements.weight() = specs[i].weight;
    Canon want3 = expected(specs, w.N, scal, damp);
    Observation o3 = observe(w, pb, *scheme);
    std::string d3 = o3.bad.empty() && o3.called ? compare(o3.canon, want3, true) : "not called again: " + o3.bad;
    c.check(d3.empty(), "other-weight", [&] { return cat("after multiplying the weight of the objective ", i, " by 2.25: ", d3); });
  }
}

void choose(Ctx & c, int n, int backend)
{
  // n tasks, increasing order of palette index; the order of addition is one of the rotations
  const auto & pal = palette();
  Std w;
  std::vector<int> ids;
  int prev = -1;
  for(int i = 0; i < n; ++i)
  {
    int left = static_cast<int>(pal.size()) - prev - 1 - (n - 1 - i);
    prev = prev + 1 + c.choose(left);
    ids.push_back(prev);
  }
  if(n > 1)
  {
    int rot = c.choose(n);
    std::rotate(ids.begin(), ids.begin() + rot, ids.end());
  }
  std::vector<std::pair<Task, Spec>> tasks;
  std::vector<SolvingRequirements> reqs;
  static const std::vector<Req> reqsEq = {{0, 1, 0}, {1, 1, 0}, {2, 4, 0}, {1, 0.25, 1}};
  std::vector<std::string> names;
  for(int i : ids)
  {
    const auto & e = pal[static_cast<size_t>(i)];
    auto t = e.make(w);
    Req r = e.ineq ? Req{0, 1, 0} : reqsEq[static_cast<size_t>(c.choose(n > 2 ? 3 : 4))];
    reqs.push_back(req(r, static_cast<int>(t.second.J.rows()), t.second));
    tasks.push_back(t);
    c.step([&] { return cat("task ", e.name, " priority ", r.p, " weight ", r.w, r.aniso ? " anisotropic" : ""); });
  }
  checkProblem(c, w, tasks, reqs, backend, 10, true);
}

std::vector<Driver> drivers()
{
  std::vector<Driver> d;
  d.push_back({"pairs", "every pair of tasks of a palette of 24 (bounds, general constraints, objectives; every type, rhs form, sub-variables, repeated variables, kinematic tasks), every priority/weight combination, every back-end, then each weight changed",
               [](Ctx & c) { int b = c.choose(N_BACKENDS); if(b == QUADPROG_CHOL) c.prune(); choose(c, 2, b); }, 3});
  d.push_back({"triples", "every triple of tasks of the palette, every priority combination, one back-end of each layout convention (all in thorough)",
               [](Ctx & c) { int b = c.thorough ? c.choose(N_BACKENDS) : c.choose(4); if(b == QUADPROG_CHOL) c.prune(); if(c.thorough) choose(c, 3, b); else choose(c, 3, b); }, 3});
  d.push_back({"requirements", "one or two objectives with every combination of priority 1..3, weight, anisotropic weight, scalarization weight, and no/auto damping, all back-ends",
               [](Ctx & c) {
                 int b = c.choose(N_BACKENDS);
                 Std w;
                 const auto & pal = palette();
                 std::vector<std::pair<Task, Spec>> tasks;
                 std::vector<SolvingRequirements> reqs;
                 static const std::vector<int> objs = {18, 20, 10, 8, 21};
                 int n = 1 + c.choose(2);
                 bool full = n == 1 || c.thorough;
                 // QuadProg's Cholesky mode needs a full column rank objective when it has at least n rows
                 for(int i = 0; i < n; ++i)
                 {
                   auto t = pal[static_cast<size_t>(objs[static_cast<size_t>(c.choose(static_cast<int>(objs.size())))])].make(w);
                   Req r{1 + c.choose(3), c.pick(full ? std::vector<double>{1, 4, 0.25, 0} : std::vector<double>{1, 0.25}), c.choose(full ? 3 : 2)};
                   reqs.push_back(req(r, static_cast<int>(t.second.J.rows()), t.second));
                   tasks.push_back(t);
                   c.step([&] { return cat("objective ", t.second.J.rows(), " rows, priority ", r.p, " weight ", r.w, " aniso ", r.aniso); });
                 }
                 if(b == QUADPROG_CHOL)
                 {
                   std::vector<Spec> s;
                   for(auto & t : tasks) s.push_back(t.second);
                   Canon want = expected(s, w.N, 10);
                   int nu = 0;
                   for(bool u : want.uses) nu += u;
                   Eigen::FullPivLU<Mat> lu(want.Q);
                   lu.setThreshold(1e-9);
                   if(lu.rank() < nu && want.nObjRows >= nu) c.prune();
                   if(lu.rank() < nu) { if(lu.rank() < want.nObjRows) c.prune(); }
                 }
                 double scal = full ? c.pick(std::vector<double>{10, 1, 1000}) : 10;
                 bool damp = full && c.flip();
                 checkProblem(c, w, tasks, reqs, b, scal, damp);
               }, 3});
  d.push_back({"undamped", "problems without objective, with and without automatic damping, single tasks and pairs, all back-ends",
               [](Ctx & c) {
                 int b = c.choose(N_BACKENDS);
                 Std w;
                 const auto & pal = palette();
                 std::vector<std::pair<Task, Spec>> tasks;
                 std::vector<SolvingRequirements> reqs;
                 int n = 1 + c.choose(2);
                 bool damp = c.flip();
                 if(b == QUADPROG_CHOL && !damp) c.prune();
                 for(int i = 0; i < n; ++i)
                 {
                   int id = c.choose(static_cast<int>(pal.size()));
                   auto t = pal[static_cast<size_t>(id)].make(w);
                   reqs.push_back(req({0, 1, 0}, static_cast<int>(t.second.J.rows()), t.second));
                   tasks.push_back(t);
                   c.step([&] { return "task " + pal[static_cast<size_t>(id)].name; });
                 }
                                checkProblem(c, w, tasks, reqs, b, 10, damp);
               }, 3});
  return d;
}
} // namespace
int main(int argc, char ** argv)
{
  return run(argc, argv, "C01", drivers(),
             {"The numerical back-ends are stand-ins with the calling conventions of QLD, Quadprog, LSSOL and LexLS; the library's own wrappers are the real code",
              "Matrix values are fixed representatives (distinct, non-symmetric, with zero, negative and non-unit entries); structure is enumerated",
              "Absolute values above 1e100 count as absent bounds"});
}
