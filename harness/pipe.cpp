#include "pipe.h"

#include <cmath>
#include <iomanip>
#include <iostream>
#include <tvm/solver/LSSOLLeastSquareSolver.h>
#include <tvm/solver/LexLSLeastSquareSolver.h>
#include <tvm/solver/QLDLeastSquareSolver.h>
#include <tvm/solver/QuadprogLeastSquareSolver.h>
#include <tvm/solver/defaultLeastSquareSolver.h>

namespace stub
{
Answer & answer()
{
  static Answer a;
  return a;
}
bool solve(Problem & p, Eigen::VectorXd & x)
{
  x = Eigen::VectorXd::Zero(p.n);
  if(answer()) return answer()(p, x);
  return true;
}
} // namespace stub

namespace pipe_
{
using tvm::constraint::Type;

void mute()
{
  static bool done = false;
  if(!done)
  {
    done = true;
    std::cout.setstate(std::ios_base::badbit);
  }
}

void addHalfSpace(Canon & c, const Vec & a, double b)
{
  if(std::isnan(b) || a.hasNaN())
  {
    c.infeasible = true;
    c.hs[{-999999}] = 0;
    return;
  }
  if(b > INF) return;
  double s = a.cwiseAbs().maxCoeff();
  if(s < 1e-10)
  {
    if(b < -1e-9) c.infeasible = true;
    return;
  }
  std::vector<long> key(static_cast<size_t>(a.size()));
  for(int i = 0; i < a.size(); ++i) key[static_cast<size_t>(i)] = std::lround(a[i] / s * 1e6);
  double v = b / s;
  auto it = c.hs.find(key);
  if(it == c.hs.end())
    c.hs[key] = v;
  else
    it->second = std::min(it->second, v);
  c.rows.push_back({a, b});
}

void addRow(Canon & c, const Vec & a, double l, double u)
{
  c.twoSided.push_back({a, l, u});
  if(std::isnan(l) || std::isnan(u))
  {
    addHalfSpace(c, a, std::nan(""));
    return;
  }
  if(l > -INF) addHalfSpace(c, -a, -l);
  if(u < INF) addHalfSpace(c, a, u);
}

Canon expected(const std::vector<Spec> & tasks, int N, double scalarization, bool damp)
{
  Canon c;
  c.uses.assign(static_cast<size_t>(N), false);
  c.Q = Mat::Zero(N, N);
  c.c = Vec::Zero(N);
  c.nObjRows = 0;
  int maxp = 0;
  for(auto & t : tasks) maxp = std::max(maxp, t.priority);
  for(auto & t : tasks)
  {
    for(int i = 0; i < N; ++i)
      if(t.uses[static_cast<size_t>(i)]) c.uses[static_cast<size_t>(i)] = true;
    for(int r = 0; r < t.J.rows(); ++r)
    {
      Vec a = t.J.row(r).transpose();
      if(t.priority == 0)
        addRow(c, a, t.l[r], t.u[r]);
      else
      {
        double s = std::sqrt(t.weight) * std::pow(scalarization, maxp - t.priority);
        if(t.aniso.size()) s *= std::sqrt(t.aniso[r]);
        c.Q += s * s * a * a.transpose();
        c.c -= s * s * a * t.l[r];
        c.nObjRows++;
      }
    }
  }
  if(damp && c.nObjRows == 0)
    for(int i = 0; i < N; ++i)
      if(c.uses[static_cast<size_t>(i)])
      {
        c.Q(i, i) = 1;
        c.nObjRows++;
      }
  return c;
}

stub::Problem flatten(const stub::Problem & p)
{
  if(!p.isHierarchical || !p.misuse.empty()) return p;
  stub::Problem q = p;
  q.isHierarchical = false;
  q.levels.clear();
  if(p.levels.size() != 2)
  {
    q.misuse = "expected one level of constraints and one of objectives";
    return q;
  }
  q.cstr = p.levels[0];
  q.nGeneralRows = static_cast<int>(p.levels[0].size());
  q.nObjRows = static_cast<int>(p.levels[1].size());
  q.hasCost = true;
  q.Q = Mat::Zero(p.n, p.n);
  q.c = Vec::Zero(p.n);
  for(auto & r : p.levels[1])
  {
    if(!(r.l == r.u)) q.misuse = "objective row is not an equality";
    q.Q += r.a * r.a.transpose();
    q.c -= r.a * r.l;
  }
  return q;
}

Canon translate(const stub::Problem & p, const std::vector<int> & col, int N)
{
  Canon c;
  c.uses.assign(static_cast<size_t>(N), false);
  c.Q = Mat::Zero(N, N);
  c.c = Vec::Zero(N);
  c.nObjRows = p.nObjRows;
  c.nRows = p.nGeneralRows;
  auto lift = [&](const Vec & a) {
    Vec v = Vec::Zero(N);
    for(int j = 0; j < p.n; ++j) v[col[static_cast<size_t>(j)]] += a[j];
    return v;
  };
  for(int j = 0; j < p.n; ++j) c.uses[static_cast<size_t>(col[static_cast<size_t>(j)])] = true;
  for(auto & r : p.cstr) addRow(c, lift(r.a), r.l, r.u);
  if(p.hasBounds)
    for(int j = 0; j < p.n; ++j)
    {
      Vec e = Vec::Zero(N);
      e[col[static_cast<size_t>(j)]] = 1;
      addRow(c, e, p.xl[j], p.xu[j]);
    }
  if(p.hasCost)
  {
    for(int i = 0; i < p.n; ++i)
    {
      c.c[col[static_cast<size_t>(i)]] += p.c[i];
      for(int j = 0; j < p.n; ++j) c.Q(col[static_cast<size_t>(i)], col[static_cast<size_t>(j)]) += p.Q(i, j);
    }
  }
  return c;
}

std::string show(const Canon & c)
{
  std::ostringstream os;
  os << "uses=";
  for(bool b : c.uses) os << b;
  os << " constraints(a.x<=b):";
  for(auto & h : c.hs)
  {
    os << " [";
    for(auto v : h.first) os << static_cast<double>(v) / 1e6 << ",";
    os << "<=" << h.second << "]";
  }
  if(c.infeasible) os << " INFEASIBLE";
  os << " Q=[" << c.Q.format(Eigen::IOFormat(6, 1, ",", ";")) << "] c=[" << c.c.transpose() << "]";
  return os.str();
}

std::string show(const stub::Problem & p)
{
  std::ostringstream os;
  os << std::setprecision(12) << p.backend << " n=" << p.n << " rows:";
  for(auto & r : p.cstr) os << " [" << r.l << " <= " << r.a.transpose() << " <= " << r.u << "]";
  if(p.hasBounds) os << " xl=" << p.xl.transpose() << " xu=" << p.xu.transpose();
  if(p.hasCost) os << " Q=" << p.Q.format(Eigen::IOFormat(12, 1, ",", ";")) << " c=" << p.c.transpose();
  return os.str();
}

std::string compare(const Canon & got, const Canon & want, bool sameScale, double costTol)
{
  if(got.uses != want.uses) return "different unknowns: got " + show(got) + " expected " + show(want);
  if(got.infeasible != want.infeasible) return "different constraints: got " + show(got) + " expected " + show(want);
  auto sub = [](const Canon & a, const Canon & b) {
    for(auto & h : a.hs)
    {
      auto it = b.hs.find(h.first);
      if(it == b.hs.end()) return false;
      if(!(std::abs(it->second - h.second) <= 1e-6 * (1 + std::abs(h.second)))) return false;
    }
    return true;
  };
  if(!sub(got, want) || !sub(want, got)) return "different constraints: got " + show(got) + " expected " + show(want);
  if(got.Q.hasNaN() || got.c.hasNaN()) return "NaN in the cost: " + show(got);
  double ng = got.Q.cwiseAbs().maxCoeff(), nw = want.Q.cwiseAbs().maxCoeff();
  double s = 1;
  if(!sameScale && ng > 0 && nw > 0) s = want.Q.trace() / got.Q.trace();
  double ref = std::max({1e-3, nw, want.c.cwiseAbs().maxCoeff()});
  double e = std::max((s * got.Q - want.Q).cwiseAbs().maxCoeff(), (s * got.c - want.c).cwiseAbs().maxCoeff());
  if(!(e <= costTol * ref)) return mc::cat("different objectives (scale ", s, "): got ", show(got), " expected ", show(want));
  // each entry must also agree at its own magnitude where only that unknown is concerned (weak priorities)
  for(int i = 0; i < want.Q.rows(); ++i)
  {
    double d = std::abs(s * got.Q(i, i) - want.Q(i, i));
    if(!(d <= 1e-5 * std::max(1e-3, std::abs(want.Q(i, i))))) return mc::cat("different objectives (scale ", s, "): got ", show(got), " expected ", show(want));
  }
  return "";
}

bool exactQP(const Mat & Q, const Vec & c, const std::vector<std::tuple<Vec, double, double>> & rows, Vec & x, int n,
             double feas)
{
  struct Half
  {
    Vec a;
    double b;
  };
  std::vector<Half> eq, in;
  for(auto & [a_, l, u] : rows)
  {
    double s = n ? a_.cwiseAbs().maxCoeff() : 0;
    if(s < 1e-12)
    {
      if(l > feas || u < -feas) return false;
      continue;
    }
    Vec a = a_ / s;
    double L = l > -INF ? l / s : -1e200, U = u < INF ? u / s : 1e200;
    if(L > -INF && U < INF && std::abs(L - U) <= 1e-12)
      eq.push_back({a, L});
    else
    {
      if(L > -INF) in.push_back({-a, -L});
      if(U < INF) in.push_back({a, U});
    }
  }
  if(n == 0)
  {
    x.resize(0);
    return true;
  }
  bool found = false;
  double bestCost = 0, bestNorm = 0;
  int m = static_cast<int>(in.size());
  double scale = std::max(1e-12, Q.cwiseAbs().maxCoeff());
  std::vector<int> act;
  auto tryActive = [&]() {
    int k = static_cast<int>(eq.size() + act.size());
    Mat C(k, n);
    Vec d(k);
    int r = 0;
    for(auto & h : eq)
    {
      C.row(r) = h.a.transpose();
      d[r++] = h.b;
    }
    for(int i : act)
    {
      C.row(r) = in[static_cast<size_t>(i)].a.transpose();
      d[r++] = in[static_cast<size_t>(i)].b;
    }
    Vec x0 = Vec::Zero(n);
    Mat Z = Mat::Identity(n, n);
    if(k)
    {
      Eigen::JacobiSVD<Mat> svd(C, Eigen::ComputeFullU | Eigen::ComputeFullV);
      svd.setThreshold(1e-9);
      x0 = svd.solve(d);
      if((C * x0 - d).cwiseAbs().maxCoeff() > feas) return;
      Z = svd.matrixV().rightCols(n - svd.rank());
    }
    // minimise over x = x0 + Z z; x0 is orthogonal to Z
    Vec xs = x0;
    if(Z.cols())
    {
      Mat H = Z.transpose() * Q * Z;
      Vec g = Z.transpose() * (Q * x0 + c);
      Eigen::SelfAdjointEigenSolver<Mat> es(H);
      Vec z = Vec::Zero(Z.cols());
      for(int i = 0; i < Z.cols(); ++i)
        if(es.eigenvalues()[i] > 1e-11 * scale) z -= es.eigenvectors().col(i) * (es.eigenvectors().col(i).dot(g) / es.eigenvalues()[i]);
      xs += Z * z;
    }
    for(auto & h : in)
      if(h.a.dot(xs) > h.b + feas * (1 + std::abs(h.b))) return;
    double cost = (0.5 * xs.dot(Q * xs) + c.dot(xs)) / scale, norm = xs.squaredNorm();
    if(!found || cost < bestCost - 1e-9 * (1 + std::abs(bestCost))
       || (cost < bestCost + 1e-9 * (1 + std::abs(bestCost)) && norm < bestNorm))
    {
      found = true;
      bestCost = cost;
      bestNorm = norm;
      x = xs;
    }
  };
  std::function<void(int)> rec = [&](int from) {
    tryActive();
    if(static_cast<int>(act.size()) >= n) return;
    for(int i = from; i < m; ++i)
    {
      act.push_back(i);
      rec(i + 1);
      act.pop_back();
    }
  };
  rec(0);
  return found;
}

bool exactQP(const stub::Problem & p, Vec & x)
{
  std::vector<std::tuple<Vec, double, double>> rows;
  for(auto & r : p.cstr) rows.push_back({r.a, r.l, r.u});
  if(p.hasBounds)
    for(int j = 0; j < p.n; ++j)
    {
      Vec e = Vec::Zero(p.n);
      e[j] = 1;
      rows.push_back({e, p.xl[j], p.xu[j]});
    }
  return exactQP(p.hasCost ? p.Q : Mat::Zero(p.n, p.n), p.hasCost ? p.c : Vec::Zero(p.n), rows, x, p.n);
}

bool optimum(const std::vector<Spec> & specs, const Canon & want, Vec & x)
{
  // restricted to the unknowns in use
  std::vector<int> id;
  int N = static_cast<int>(want.Q.rows());
  for(int i = 0; i < N; ++i)
    if(want.uses[static_cast<size_t>(i)]) id.push_back(i);
  int n = static_cast<int>(id.size());
  Mat Q(n, n);
  Vec c(n);
  for(int i = 0; i < n; ++i)
  {
    c[i] = want.c[id[static_cast<size_t>(i)]];
    for(int j = 0; j < n; ++j) Q(i, j) = want.Q(id[static_cast<size_t>(i)], id[static_cast<size_t>(j)]);
  }
  std::vector<std::tuple<Vec, double, double>> rows;
  for(auto & s : specs)
    if(s.priority == 0)
      for(int r = 0; r < s.J.rows(); ++r)
      {
        Vec a(n);
        for(int i = 0; i < n; ++i) a[i] = s.J(r, id[static_cast<size_t>(i)]);
        rows.emplace_back(a, s.l[r], s.u[r]);
      }
  Vec y = Vec::Zero(n);
  x = Vec::Zero(N);
  if(n == 0) return true;
  if(!exactQP(Q, c, rows, y, n)) return false;
  for(int i = 0; i < n; ++i) x[id[static_cast<size_t>(i)]] = y[i];
  return true;
}

std::string checkSolution(const std::vector<Spec> & specs, const Canon & want, const Vec & v, const Vec & best, bool minNorm)
{
  for(auto & s : specs)
    if(s.priority == 0)
      for(int r = 0; r < s.J.rows(); ++r)
      {
        double d = s.J.row(r).dot(v), tol = 1e-5 * (1 + v.cwiseAbs().maxCoeff());
        if(!(d >= s.l[r] - tol && d <= s.u[r] + tol))
          return mc::cat("solution ", v.transpose(), " violates ", s.l[r], " <= [", s.J.row(r), "] x <= ", s.u[r], " (", s.name, ")");
      }
  auto cost = [&](const Vec & x) { return 0.5 * x.dot(want.Q * x) + want.c.dot(x); };
  double scale = 1 + std::abs(cost(best)) + 1e-3 * want.Q.cwiseAbs().maxCoeff();
  if(!(std::abs(cost(v) - cost(best)) <= 1e-6 * scale))
    return mc::cat(std::setprecision(12), "solution ", v.transpose(), " has cost ", cost(v), ", the optimum ", best.transpose(), " has cost ", cost(best));
  if(minNorm)
    for(int i = 0; i < v.size(); ++i)
      if(want.uses[static_cast<size_t>(i)] && !(std::abs(v[i] - best[i]) <= 1e-5 * (1 + std::abs(best[i]))))
        return mc::cat("solution ", v.transpose(), ", minimum norm solution ", best.transpose());
  return "";
}

const char * backendName(int b)
{
  static const char * n[] = {"qld", "quadprog", "lssol", "lexls", "qld+cholesky", "quadprog+cholesky", "lexls+warm", "default"};
  return n[b];
}

std::unique_ptr<tvm::scheme::WeightedLeastSquares> makeScheme(int backend, bool autoDamping, double scalarization)
{
  using namespace tvm::solver;
  using tvm::scheme::WeightedLeastSquares;
  auto o = tvm::scheme::WeightedLeastSquaresOptions().autoDamping(autoDamping).scalarizationWeight(scalarization);
  switch(backend)
  {
    case QLD:
      return std::make_unique<WeightedLeastSquares>(QLDLSSolverOptions(), o);
    case QUADPROG:
      return std::make_unique<WeightedLeastSquares>(QuadprogLSSolverOptions(), o);
    case LSSOL:
      return std::make_unique<WeightedLeastSquares>(LSSOLLSSolverOptions(), o);
    case LEXLS:
      return std::make_unique<WeightedLeastSquares>(LexLSLSSolverOptions(), o);
    case QLD_CHOL:
      return std::make_unique<WeightedLeastSquares>(QLDLSSolverOptions().cholesky(true), o);
    case QUADPROG_CHOL:
      return std::make_unique<WeightedLeastSquares>(QuadprogLSSolverOptions().cholesky(true), o);
    case LEXLS_WARM:
      return std::make_unique<WeightedLeastSquares>(LexLSLSSolverOptions().warmStart(true), o);
    default:
      return std::make_unique<WeightedLeastSquares>(DefaultLSSolverOptions(), o);
  }
}

std::function<bool(const std::function<bool()> &)> & aroundSolve()
{
  static std::function<bool(const std::function<bool()> &)> f;
  return f;
}
static bool doSolve(tvm::LinearizedControlProblem & pb, tvm::scheme::WeightedLeastSquares & s)
{
  if(aroundSolve()) return aroundSolve()([&] { return s.solve(pb); });
  return s.solve(pb);
}

Observation observe(World & w, tvm::LinearizedControlProblem & pb, tvm::scheme::WeightedLeastSquares & s, bool succeed)
{
  mute();
  Observation o;
  w.set(Eigen::Map<const Vec>(w.rest.data(), w.N));
  stub::answer() = [&](const stub::Problem & p, Vec & x) {
    if(o.called) o.bad = "back-end called twice";
    o.called = true;
    o.p = flatten(p);
    x.resize(p.n);
    for(int i = 0; i < p.n; ++i) x[i] = 1000 + i;
    return succeed;
  };
  o.solved = doSolve(pb, s);
  stub::answer() = nullptr;
  Vec v = w.get();
  o.touched.assign(static_cast<size_t>(w.N), false);
  if(!o.called) return o;
  if(!o.p.misuse.empty())
  {
    o.bad = "misuse of the back-end: " + o.p.misuse;
    return o;
  }
  o.col.assign(static_cast<size_t>(o.p.n), -1);
  for(int i = 0; i < w.N; ++i)
  {
    if(v[i] == w.rest[static_cast<size_t>(i)]) continue;
    o.touched[static_cast<size_t>(i)] = true;
    int j = static_cast<int>(std::lround(v[i] - 1000));
    if(j < 0 || j >= o.p.n || v[i] != 1000 + j)
    {
      o.bad = mc::cat("component ", i, " holds ", v[i], " which is not a component of the solution");
      return o;
    }
    if(o.col[static_cast<size_t>(j)] >= 0)
    {
      o.bad = mc::cat("solver column ", j, " written to two components");
      return o;
    }
    o.col[static_cast<size_t>(j)] = i;
  }
  for(int j = 0; j < o.p.n; ++j)
    if(o.col[static_cast<size_t>(j)] < 0)
    {
      o.bad = mc::cat("solver column ", j, " written to no variable; ", show(o.p));
      return o;
    }
  o.canon = translate(o.p, o.col, w.N);
  return o;
}

bool solveExact(World & w, tvm::LinearizedControlProblem & pb, tvm::scheme::WeightedLeastSquares & s, stub::Problem * captured)
{
  mute();
  (void)w;
  stub::answer() = [&](const stub::Problem & p_, Vec & x) {
    stub::Problem p = flatten(p_);
    if(captured) *captured = p;
    if(!p.misuse.empty()) throw mc::Violation{"misuse", "misuse of the back-end: " + p.misuse};
    x = Vec::Zero(p.n);
    return exactQP(p, x);
  };
  bool b = doSolve(pb, s);
  stub::answer() = nullptr;
  return b;
}
} // namespace pipe_
