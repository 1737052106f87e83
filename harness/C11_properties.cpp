// C11: matrix properties against the matrices they describe.
#include "mc.h"

#include <tvm/Variable.h>
#include <tvm/constraint/BasicLinearConstraint.h>
#include <tvm/function/BasicLinearFunction.h>
#include <tvm/internal/MatrixProperties.h>
#include <tvm/internal/MatrixWithProperties.h>
#include <tvm/utils/AffineExpr.h>

#include <map>
#include <memory>
#include <set>
using namespace mc;
using namespace tvm::internal;
using MP = MatrixProperties;

namespace
{
/** Small integer matrix */
struct M
{
  int r = 0, c = 0;
  int a[9] = {0};
  int & operator()(int i, int j) { return a[i * 3 + j]; }
  int operator()(int i, int j) const { return a[i * 3 + j]; }
};
M mul(const M & x, const M & y)
{
  M z;
  z.r = x.r;
  z.c = y.c;
  for(int i = 0; i < z.r; ++i)
    for(int j = 0; j < z.c; ++j)
      for(int k = 0; k < x.c; ++k) z(i, j) += x(i, k) * y(k, j);
  return z;
}
M comb(int p, const M & x, int q, const M & y)
{
  M z = x;
  for(int i = 0; i < z.r; ++i)
    for(int j = 0; j < z.c; ++j) z(i, j) = p * x(i, j) + q * y(i, j);
  return z;
}
bool same(const M & x, const M & y)
{
  for(int i = 0; i < x.r; ++i)
    for(int j = 0; j < x.c; ++j)
      if(x(i, j) != y(i, j)) return false;
  return x.r == y.r && x.c == y.c;
}
std::string show(const M & x)
{
  std::string s = "[";
  for(int i = 0; i < x.r; ++i)
  {
    for(int j = 0; j < x.c; ++j) s += cat(x(i, j), " ");
    s += i + 1 < x.r ? "; " : "]";
  }
  return s;
}
// facts about a matrix
enum Fact
{
  LOW = 1,
  UP = 2,
  DIAG = 4,
  MULT = 8,
  ID = 16,
  MID = 32,
  ZERO = 64,
  SYM = 128,
  PSD = 256,
  PD = 512,
  NSD = 1024,
  ND = 2048,
  INV = 4096
};
int det(const M & m, int n)
{
  if(n == 1) return m(0, 0);
  if(n == 2) return m(0, 0) * m(1, 1) - m(0, 1) * m(1, 0);
  return m(0, 0) * (m(1, 1) * m(2, 2) - m(1, 2) * m(2, 1)) - m(0, 1) * (m(1, 0) * m(2, 2) - m(1, 2) * m(2, 0)) + m(0, 2) * (m(1, 0) * m(2, 1) - m(1, 1) * m(2, 0));
}
bool psd(const M & m, int s)
{
  // all principal minors non negative
  for(int mask = 1; mask < (1 << m.r); ++mask)
  {
    M p;
    int idx[3], n = 0;
    for(int i = 0; i < m.r; ++i)
      if(mask & (1 << i)) idx[n++] = i;
    for(int i = 0; i < n; ++i)
      for(int j = 0; j < n; ++j) p(i, j) = s * m(idx[i], idx[j]);
    if(det(p, n) < 0) return false;
  }
  return true;
}
int facts(const M & m)
{
  bool sq = m.r == m.c, low = true, up = true, zero = true, sym = sq, eq = true, id = true, mid = true;
  for(int i = 0; i < m.r; ++i)
    for(int j = 0; j < m.c; ++j)
    {
      int x = m(i, j);
      if(x) zero = false;
      if(x && j > i) low = false;
      if(x && j < i) up = false;
      if(sq && x != m(j, i)) sym = false;
      if(i == j && x != m(0, 0)) eq = false;
      if(i == j && x != 1) id = false;
      if(i == j && x != -1) mid = false;
    }
  int f = 0;
  if(low) f |= LOW;
  if(up) f |= UP;
  if(low && up) f |= DIAG;
  if(zero) f |= ZERO;
  if(!sq) return f;
  if(low && up && eq) f |= MULT;
  if(low && up && id) f |= ID;
  if(low && up && mid) f |= MID;
  int d = det(m, m.r);
  if(d) f |= INV;
  if(sym)
  {
    f |= SYM;
    bool p = psd(m, 1), n = psd(m, -1);
    if(p) f |= PSD;
    if(n) f |= NSD;
    if(p && d) f |= PD;
    if(n && d) f |= ND;
  }
  return f;
}
/** What a description claims */
int claims(const MP & p)
{
  int f = 0;
  if(p.isLowerTriangular()) f |= LOW;
  if(p.isUpperTriangular()) f |= UP;
  if(p.isDiagonal()) f |= DIAG;
  if(p.isMultipleOfIdentity()) f |= MULT;
  if(p.isIdentity()) f |= ID;
  if(p.isMinusIdentity()) f |= MID;
  if(p.isZero()) f |= ZERO;
  if(p.isSymmetric()) f |= SYM;
  if(p.isPositiveSemiDefinite()) f |= PSD;
  if(p.isPositiveDefinite()) f |= PD;
  if(p.isNegativeSemidefinite()) f |= NSD;
  if(p.isNegativeDefinite()) f |= ND;
  if(p.isIndefinite()) f |= SYM;
  if(p.isNonZeroIndefinite()) f |= SYM | INV;
  if(p.isInvertible()) f |= INV;
  return f;
}
int shapeFact(int s)
{
  static const int t[] = {0, LOW, UP, DIAG, MULT, ID, MID, ZERO};
  return t[s];
}
int posFact(int p)
{
  static const int t[] = {0, SYM | PSD, SYM | PD, SYM | NSD, SYM | ND, SYM, SYM | INV};
  return t[p];
}
struct W
{
  M m;
  int f;
};
const std::vector<W> & witnesses()
{
  static std::vector<W> w = [] {
    std::vector<W> r;
    auto add = [&](const M & m) { r.push_back({m, facts(m)}); };
    for(int a = -2; a <= 2; ++a)
    {
      M m;
      m.r = m.c = 1;
      m(0, 0) = a;
      add(m);
    }
    for(int k = 0; k < 81; ++k)
    {
      M m;
      m.r = m.c = 2;
      m(0, 0) = k % 3 - 1;
      m(0, 1) = k / 3 % 3 - 1;
      m(1, 0) = k / 9 % 3 - 1;
      m(1, 1) = k / 27 - 1;
      add(m);
    }
    for(int k : {-3, -2, 2, 3})
    {
      M m;
      m.r = m.c = 2;
      m(0, 0) = m(1, 1) = k;
      add(m);
      m(0, 1) = m(1, 0) = 1;
      add(m);
      m(0, 1) = m(1, 0) = k;
      add(m);
      m(1, 1) = -1;
      m(0, 1) = m(1, 0) = 0;
      add(m);
    }
    for(int k = 0; k < 18; ++k)
    {
      // 3x3: diagonal pattern x off-diagonal pattern
      static const int d[6][3] = {{1, 1, 1}, {-1, -1, -1}, {0, 0, 0}, {2, 2, 2}, {1, 0, 2}, {-1, 2, -1}};
      M m;
      m.r = m.c = 3;
      for(int i = 0; i < 3; ++i) m(i, i) = d[k % 6][i];
      if(k / 6 == 1) m(2, 0) = m(1, 0) = 1;
      if(k / 6 == 2) m(0, 2) = m(2, 0) = 1;
      add(m);
    }
    return r;
  }();
  return w;
}
const std::vector<W> & rectangular()
{
  static std::vector<W> w = [] {
    std::vector<W> r;
    for(int k = 0; k < 9; ++k)
    {
      M m;
      m.r = 1;
      m.c = 2;
      m(0, 0) = k % 3 - 1;
      m(0, 1) = k / 3 - 1;
      if(k != 4) r.push_back({m, facts(m)});
      M t;
      t.r = 2;
      t.c = 1;
      t(0, 0) = m(0, 0);
      t(1, 0) = m(0, 1);
      if(k != 4) r.push_back({t, facts(t)});
    }
    return r;
  }();
  return w;
}

struct Args
{
  int shape = 0, pos = 0, cst = 0, inv = 0;
};
/** Constructor call with the arguments in the given order */
template<unsigned used, typename... A>
MP build(const std::vector<int> & order, size_t i, const Args & g, const A &... a)
{
  if(i == order.size()) return MP(a...);
  if constexpr(!(used & 1))
    if(order[i] == 0) return build<used | 1>(order, i + 1, g, a..., static_cast<MP::Shape>(g.shape));
  if constexpr(!(used & 2))
    if(order[i] == 1) return build<used | 2>(order, i + 1, g, a..., static_cast<MP::Positiveness>(g.pos));
  if constexpr(!(used & 4))
    if(order[i] == 2) return build<used | 4>(order, i + 1, g, a..., MP::Constness(g.cst != 0));
  if constexpr(!(used & 8))
    if(order[i] == 3) return build<used | 8>(order, i + 1, g, a..., MP::Invertibility(g.inv != 0));
  throw std::logic_error("order");
}
template<>
MP build<0>(const std::vector<int> & order, size_t i, const Args & g)
{
  if(i == order.size()) return MP();
  if(order[i] == 0) return build<1>(order, i + 1, g, static_cast<MP::Shape>(g.shape));
  if(order[i] == 1) return build<2>(order, i + 1, g, static_cast<MP::Positiveness>(g.pos));
  if(order[i] == 2) return build<4>(order, i + 1, g, MP::Constness(g.cst != 0));
  return build<8>(order, i + 1, g, MP::Invertibility(g.inv != 0));
}
const char * S[] = {"GENERAL", "LOWER", "UPPER", "DIAGONAL", "MULT_ID", "ID", "-ID", "ZERO"};
const char * Q[] = {"NA", "PSD", "PD", "NSD", "ND", "INDEF", "NZ_INDEF"};
std::string show(const MP & p) { return cat("{", S[p.shape()], " ", Q[p.positiveness()], p.isConstant() ? " constant" : "", p.isInvertible() ? " invertible" : "", p.isSymmetric() ? " symmetric" : "", "}"); }
std::string factNames(int f)
{
  static const char * n[] = {"lower triangular", "upper triangular", "diagonal", "multiple of identity", "identity", "minus identity", "zero", "symmetric", "positive semidefinite", "positive definite", "negative semidefinite", "negative definite", "invertible"};
  std::string s;
  for(int i = 0; i < 13; ++i)
    if(f & (1 << i)) s += cat(s.empty() ? "" : ", ", n[i]);
  return s;
}

void construction(Ctx & c)
{
  std::vector<int> order;
  unsigned used = 0;
  int n = c.choose(5);
  for(int i = 0; i < n; ++i)
  {
    int k = c.choose(4);
    if(used & (1u << k)) c.prune();
    used |= 1u << k;
    order.push_back(k);
  }
  Args g;
  std::string text;
  for(int k : order)
  {
    if(k == 0) g.shape = c.choose(8), text += cat(S[g.shape], " ");
    else if(k == 1) g.pos = c.choose(7), text += cat(Q[g.pos], " ");
    else if(k == 2) g.cst = c.choose(2), text += cat("constant=", g.cst, " ");
    else g.inv = c.choose(2), text += cat("invertible=", g.inv, " ");
  }
  c.step([&] { return cat("MatrixProperties(", text, ")"); });
  int req = shapeFact(g.shape) | posFact(g.pos) | (g.inv ? INV : 0);
  bool notInv = (used & 8) && !g.inv, notCst = (used & 4) && !g.cst;
  std::vector<const W *> ok;
  bool singular = false;
  for(auto & w : witnesses())
    if((w.f & req) == req)
    {
      ok.push_back(&w);
      singular = singular || !(w.f & INV);
    }
  std::set<std::string> values2;
  for(auto w : ok)
    if(w->m.r == 2) values2.insert(show(w->m));
  bool possible = !ok.empty() && !(notInv && !singular) && !(notCst && values2.size() < 2); // a single possible value cannot vary
  // the matrix 0 is the only one that can be both psd and nsd... nothing to say there: the constructor takes one positiveness
  MP p;
  bool t = false;
  std::string why;
  try
  {
    p = build<0>(order, 0, g);
  }
  catch(const std::exception & e)
  {
    t = true;
    why = e.what();
  }
  // Refusing is compulsory when what is written is contradictory, accepting when it is not
  c.check(t == !possible, "consistency", [&] { return cat(text, t ? cat("refused (", why, ") although consistent") : "accepted although contradictory"); });
  if(t) return;
  int cl = claims(p);
  for(auto w : ok) c.check((cl & ~w->f) == 0, "construction", [&] { return cat("(", text, ") gives ", show(p), ", which claims ", factNames(cl & ~w->f), " for ", show(w->m)); });
  c.check(!p.isConstant() || g.cst || values2.size() < 2, "constant", [&] { return cat("(", text, ") is declared constant"); });
  c.check(!g.cst || p.isConstant(), "lost", [&] { return cat("(", text, ") lost its constness"); });
  c.check((req & ~cl) == 0, "lost", [&] { return cat("(", text, ") gives ", show(p), ", which lost ", factNames(req & ~cl)); });
  c.check(!(used & 1) || g.shape == 0 || p.shape() >= g.shape, "lost", [&] { return cat("(", text, ") gives ", show(p)); });
  MP q(p);
  const MP & cp = p;
  MP q2(cp);
  MP q3;
  q3 = p;
  for(const MP * x : {&q, &q2, &q3})
    c.check(x->shape() == p.shape() && x->positiveness() == p.positiveness() && x->isConstant() == p.isConstant() && x->isInvertible() == p.isInvertible() && x->isSymmetric() == p.isSymmetric(), "copy", [&] { return cat("copy of ", show(p), " is ", show(*x)); });
  c.check(bool(p.constness()) == p.isConstant() && bool(p.invertibility()) == p.isInvertible(), "accessors", "constness()/invertibility()");
  Hash h;
  c.state(h.i(p.shape()).i(p.positiveness()).i(p.isConstant()).i(p.isInvertible()));
}

/** All distinct descriptions that can be constructed */
const std::vector<MP> & all()
{
  static std::vector<MP> v = [] {
    std::vector<MP> r;
    std::set<std::string> seen;
    for(int s = 0; s < 8; ++s)
      for(int p = 0; p < 7; ++p)
        for(int k = 0; k < 4; ++k)
        {
          std::vector<int> order{0, 1};
          if(k & 1) order.push_back(2);
          if(k & 2) order.push_back(3);
          Args g;
          g.shape = s;
          g.pos = p;
          g.cst = g.inv = 1;
          try
          {
            MP m = build<0>(order, 0, g);
            if(seen.insert(show(m)).second) r.push_back(m);
          }
          catch(const std::exception &)
          {}
        }
    return r;
  }();
  return v;
}
const std::vector<std::vector<const W *>> & described(bool rect)
{
  static std::vector<std::vector<const W *>> v[2];
  auto & r = v[rect];
  if(r.empty())
    for(auto & p : all())
    {
      r.emplace_back();
      int cl = claims(p);
      for(auto & w : witnesses())
        if((cl & ~w.f) == 0) r.back().push_back(&w);
      if(rect)
        for(auto & w : rectangular())
          if((cl & ~w.f) == 0) r.back().push_back(&w);
    }
  return r;
}

void operators(Ctx & c)
{
  auto & D = all();
  int n = static_cast<int>(D.size());
  int i = c.choose(n), op = c.choose(4);
  const MP & p = D[static_cast<size_t>(i)];
  auto & WP = described(true)[static_cast<size_t>(i)];
  MP r;
  auto compute = [&](const std::string & text, auto && f) {
    c.step([&] { return text; });
    try
    {
      r = f();
    }
    catch(const std::exception & e)
    {
      c.fail("operator-throws", cat(text, " throws: ", e.what()));
    }
  };
  auto sound = [&](const std::string & text, const M & m, const W & a, const W * b) {
    int cl = claims(r), f = facts(m);
    if(m.r != m.c && (f & ZERO)) return; // descriptions of zero matrices do not tell square from rectangular ones
    c.check((cl & ~f) == 0, "operator", [&] { return cat(text, " gives ", show(r), ", which claims ", factNames(cl & ~f), " for ", show(m), ", obtained from ", show(a.m), b ? cat(" and ", show(b->m)) : std::string()); });
  };
  if(op == 0)
  {
    static const double ds[] = {-2, -1, 0, 1, 2};
    int k = c.choose(6);
    std::string text = k == 5 ? cat("-", show(p)) : cat(ds[k], " * ", show(p));
    compute(text, [&] { return k == 5 ? -p : ds[k] * p; });
    int d = k == 5 ? -1 : static_cast<int>(ds[k]);
    bool vary = false;
    for(auto w : WP)
    {
      sound(text, comb(d, w->m, 0, w->m), *w, nullptr);
      for(auto x : WP) vary = vary || (x->m.r == w->m.r && x->m.c == w->m.c && !same(comb(d, x->m, 0, x->m), comb(d, w->m, 0, w->m)));
    }
    c.check(!r.isConstant() || p.isConstant() || !vary, "constant", [&] { return cat(text, " is declared constant"); });
    c.check(!p.isConstant() || r.isConstant(), "lost", [&] { return cat(text, " lost its constness"); });
    if(d) c.check(!p.isInvertible() || r.isInvertible(), "lost", [&] { return cat(text, " lost its invertibility"); });
    return;
  }
  int j = c.choose(n);
  const MP & q = D[static_cast<size_t>(j)];
  auto & WQ = described(true)[static_cast<size_t>(j)];
  std::string text = cat(show(p), op == 1 ? " + " : op == 2 ? " - " : " * ", show(q));
  compute(text, [&] { return op == 1 ? p + q : op == 2 ? p - q : p * q; });
  bool vary = false;
  const bool pc = p.isConstant(), qc = q.isConstant(), rc = r.isConstant();
  auto eval = [&](const W & a, const W & b) { return op == 3 ? mul(a.m, b.m) : comb(1, a.m, op == 1 ? 1 : -1, b.m); };
  for(auto a : WP)
    for(auto b : WQ)
    {
      if(op == 3 ? a->m.c != b->m.r : (a->m.r != b->m.r || a->m.c != b->m.c)) continue;
      M m = eval(*a, *b);
      sound(text, m, *a, b);
      if(rc && !vary)
      {
        // a constant result cannot change when an operand that may change does
        if(!pc)
          for(auto x : WP)
            if(x->m.r == a->m.r && x->m.c == a->m.c && !same(eval(*x, *b), m)) vary = true;
        if(!qc)
          for(auto x : WQ)
            if(x->m.r == b->m.r && x->m.c == b->m.c && !same(eval(*a, *x), m)) vary = true;
      }
    }
  c.check(!rc || !vary, "constant", [&] { return cat(text, " is declared constant"); });
  c.check(!(pc && qc) || rc, "lost", [&] { return cat(text, " lost its constness"); });
  c.check(op != 3 || !(p.isInvertible() && q.isInvertible()) || r.isInvertible(), "lost", [&] { return cat(text, " lost its invertibility"); });
  Hash h;
  c.state(h.i(r.shape()).i(r.positiveness()).i(r.isConstant()).i(r.isInvertible()));
}

/** Matrices carrying their properties */
void objects(Ctx & c, int maxDepth)
{
  struct O
  {
    std::unique_ptr<MatrixWithProperties> m;
    Eigen::MatrixXd v;
    MP p;
  };
  std::vector<O> o(2);
  Eigen::MatrixXd A(2, 2), B(2, 2);
  A << 1, 2, 3, 4;
  B << 5, 0, 0, 7;
  for(int i = 0; i < 2; ++i)
  {
    if(i == 0)
    {
      o[0].m = std::make_unique<MatrixWithProperties>(A);
      o[0].v = A;
    }
    else
    {
      o[1].p = MP(MP::DIAGONAL, MP::POSITIVE_DEFINITE);
      o[1].m = std::make_unique<MatrixWithProperties>(static_cast<const Eigen::MatrixBase<Eigen::MatrixXd> &>(B), static_cast<const MP &>(o[1].p));
      o[1].v = B;
    }
  }
  auto eq = [](const MP & a, const MP & b) { return a.shape() == b.shape() && a.positiveness() == b.positiveness() && a.isConstant() == b.isConstant() && a.isInvertible() == b.isInvertible() && a.isSymmetric() == b.isSymmetric(); };
  int depth = 1 + c.choose(maxDepth);
  for(int d = 0; d < depth; ++d)
  {
    auto & x = o[static_cast<size_t>(c.choose(2))];
    auto & y = &x == &o[0] ? o[1] : o[0];
    std::string who = &x == &o[0] ? "M" : "N";
    switch(c.choose(12))
    {
      case 0:
        c.step([&] { return who + " = expression"; });
        *x.m = 2 * B;
        x.v = 2 * B;
        x.p = MP();
        break;
      case 1:
        c.step([&] { return who + " += expression"; });
        *x.m += A;
        x.v += A;
        x.p = MP();
        break;
      case 2:
        c.step([&] { return who + " -= expression"; });
        *x.m -= B;
        x.v -= B;
        x.p = MP();
        break;
      case 3:
        c.step([&] { return who + ".keepProperties(true) = expression"; });
        x.m->keepProperties(true) = B + B;
        x.v = B + B;
        break;
      case 4:
        c.step([&] { return who + ".keepProperties(false) = expression"; });
        x.m->keepProperties(false) = A + B;
        x.v = A + B;
        x.p = MP();
        break;
      case 5:
        c.step([&] { return who + ".assignKeepProperties"; });
        x.m->assignKeepProperties(Eigen::MatrixXd::Identity(2, 2));
        x.v = Eigen::MatrixXd::Identity(2, 2);
        break;
      case 6:
        c.step([&] { return who + ".properties(diagonal)"; });
        x.m->properties(MP(MP::DIAGONAL));
        x.p = MP(MP::DIAGONAL);
        break;
      case 7:
        c.step([&] { return who + ".properties() = positive definite"; });
        x.m->properties() = MP(MP::POSITIVE_DEFINITE);
        x.p = MP(MP::POSITIVE_DEFINITE);
        break;
      case 8:
        c.step([&] { return who + " = the other one"; });
        *x.m = *y.m;
        x.v = y.v;
        x.p = y.p;
        break;
      case 9:
        c.step([&] { return who + " copy constructed from the other one"; });
        x.m = std::make_unique<MatrixWithProperties>(*y.m);
        x.v = y.v;
        x.p = y.p;
        break;
      case 10:
      {
        c.step([&] { return who + " move constructed from a copy of the other one"; });
        MatrixWithProperties t(*y.m);
        x.m = std::make_unique<MatrixWithProperties>(std::move(t));
        x.v = y.v;
        x.p = y.p;
        break;
      }
      default:
      {
        c.step([&] { return who + " read through a constant reference with properties"; });
        MatrixConstRefWithProperties r(static_cast<const Eigen::MatrixBase<Eigen::MatrixXd> &>(*x.m), static_cast<const MP &>(x.m->properties()));
        c.check(r == x.v && eq(r.properties(), x.p), "reference", "constant reference with properties");
        ObjectWithProperties<Eigen::Ref<Eigen::MatrixXd>, true> w(x.m->middleCols(0, 2), x.m->properties());
        w = A;
        x.v = A;
        x.p = MP();
      }
    }
  }
  for(auto & x : o)
  {
    c.check(*x.m == x.v, "value", "values of a matrix with properties");
    c.check(eq(x.m->properties(), x.p), "properties", [&] { return cat("properties ", show(x.m->properties()), ", expected ", show(x.p)); });
  }
}

/** What is wrong in the description \p p of the 2x2 or 2x1 matrix \p A. */
std::string wrong(const MP & p, const Eigen::MatrixXd & A)
{
  const Eigen::Index n = A.rows();
  const bool square = A.rows() == A.cols();
  const Eigen::MatrixXd I = Eigen::MatrixXd::Identity(A.rows(), A.cols());
  if(p.isZero()) return A.isZero(0) ? "" : "zero";
  if(p.isLowerTriangular() && (!square || A(0, 1) != 0)) return "lower triangular";
  if(p.isUpperTriangular() && (!square || A(1, 0) != 0)) return "upper triangular";
  if(p.isIdentity() && A != I) return "identity";
  if(p.isMinusIdentity() && A != -I) return "minus identity";
  if(p.isMultipleOfIdentity() && A != A(0, 0) * I) return "multiple of the identity";
  if(p.isSymmetric() && (!square || A(0, 1) != A(1, 0))) return "symmetric";
  if(p.isInvertible() && (!square || A(0, 0) * A(1, 1) == A(0, 1) * A(1, 0))) return "invertible";
  if(n == 2 && square)
  {
    const double t = A(0, 0) + A(1, 1), d = A(0, 0) * A(1, 1) - A(0, 1) * A(1, 0); // of a symmetric matrix, below
    if(p.isPositiveDefinite() && !(t > 0 && d > 0)) return "positive definite";
    if(p.isPositiveSemiDefinite() && !(t >= 0 && d >= 0)) return "positive semidefinite";
    if(p.isNegativeDefinite() && !(t < 0 && d > 0)) return "negative definite";
    if(p.isNegativeSemidefinite() && !(t <= 0 && d >= 0)) return "negative semidefinite";
  }
  return "";
}

bool sameDesc(const MP & a, const MP & b)
{ return a.shape() == b.shape() && a.positiveness() == b.positiveness() && a.isConstant() == b.isConstant() && a.isInvertible() == b.isInvertible() && a.isSymmetric() == b.isSymmetric(); }

/** Linear functions and constraints whose matrices and vectors are given anew, with and without a description. */
void functions(Ctx & c, int depth)
{
  using namespace tvm;
  VariablePtr x = Space(2).createVariable("x"), y = Space(2).createVariable("y");
  struct Given
  {
    const char * name;
    Eigen::Matrix2d A;
    std::vector<MP> p;
  };
  static const auto given = [] {
    std::vector<Given> g(7);
    g[0] = {"general", (Eigen::Matrix2d() << 1, 2, 3, 4).finished(), {MP(MP::Invertibility(true)), MP(MP::Constness(true))}};
    g[1] = {"identity", Eigen::Matrix2d::Identity(), {MP(MP::IDENTITY), MP(MP::POSITIVE_DEFINITE)}};
    g[2] = {"-identity", -Eigen::Matrix2d::Identity(), {MP(MP::MINUS_IDENTITY), MP(MP::Constness(true), MP::MINUS_IDENTITY)}};
    g[3] = {"zero", Eigen::Matrix2d::Zero(), {MP(MP::ZERO), MP(MP::POSITIVE_SEMIDEFINITE)}};
    g[4] = {"diagonal", Eigen::Vector2d(2, 3).asDiagonal(), {MP(MP::DIAGONAL), MP(MP::DIAGONAL, MP::POSITIVE_DEFINITE)}};
    g[5] = {"lower", (Eigen::Matrix2d() << 1, 0, 5, 1).finished(), {MP(MP::LOWER_TRIANGULAR), MP(MP::LOWER_TRIANGULAR, MP::Invertibility(true))}};
    g[6] = {"negative", (Eigen::Matrix2d() << -2, 1, 1, -2).finished(), {MP(MP::Invertibility(true)), MP(MP::NEGATIVE_DEFINITE)}};
    return g;
  }();
  const int kind = c.choose(7);
  std::shared_ptr<function::BasicLinearFunction> f;
  std::shared_ptr<constraint::BasicLinearConstraint> k;
  const Eigen::Vector2d b0(1, -2);
  switch(kind)
  {
    case 0: f = std::make_shared<function::BasicLinearFunction>(given[0].A, x); break;
    case 1: f = std::make_shared<function::BasicLinearFunction>(std::vector<tvm::MatrixConstRef>{given[1].A, given[2].A}, std::vector<VariablePtr>{x, y}, b0); break;
    case 2: f = std::make_shared<function::BasicLinearFunction>(x - 2 * y + b0); break;
    case 3: f = std::make_shared<function::BasicLinearFunction>(-x); break;
    case 4: f = std::make_shared<function::BasicLinearFunction>(x + y + 3 * x); break;
    case 5: k = std::make_shared<constraint::BasicLinearConstraint>(given[0].A, x, b0, constraint::Type::EQUAL, constraint::RHS::AS_GIVEN); break;
    default: k = std::make_shared<constraint::BasicLinearConstraint>(std::vector<tvm::MatrixConstRef>{given[1].A, given[2].A}, std::vector<VariablePtr>{x, y}, b0, constraint::Type::LOWER_THAN, constraint::RHS::OPPOSITE);
  }
  static const char * K[] = {"f = A x", "f = x - y + b", "f = x - 2y + b", "f = -x", "f = x + y + 3x", "A x = b", "x - y <= -b"};
  c.step(K[kind]);
  const bool two = kind == 1 || kind == 2 || kind == 4 || kind == 6;
  // what is known of each: the value, and the description if one was given last
  std::map<Variable *, Eigen::MatrixXd> val;
  std::map<Variable *, MP> desc;
  Eigen::VectorXd b = (kind == 1 || kind == 2 || kind >= 5) ? Eigen::VectorXd(b0) : Eigen::VectorXd::Zero(2);
  std::unique_ptr<MP> descB;
  val[x.get()] = kind == 0 || kind == 5 ? given[0].A : kind == 3 ? Eigen::Matrix2d(-Eigen::Matrix2d::Identity()) : kind == 4 ? Eigen::Matrix2d(4 * Eigen::Matrix2d::Identity()) : Eigen::Matrix2d(Eigen::Matrix2d::Identity());
  if(two) val[y.get()] = kind == 2 ? -2 * Eigen::Matrix2d::Identity() : kind == 4 ? Eigen::Matrix2d(Eigen::Matrix2d::Identity()) : Eigen::Matrix2d(-Eigen::Matrix2d::Identity());
  auto verify = [&] {
    for(auto & v : val)
    {
      auto J = f ? f->jacobian(*v.first) : k->jacobian(*v.first);
      c.check(J == v.second, "function value", [&] { return cat("matrix of ", v.first->name()); });
      const std::string w = wrong(J.properties(), v.second);
      c.check(w.empty(), "function description", [&] { return cat("the matrix of ", v.first->name(), " is said ", w, ": ", show(J.properties())); });
      if(desc.count(v.first)) c.check(sameDesc(J.properties(), desc.at(v.first)), "function given", [&] { return cat("the matrix of ", v.first->name(), " is described by ", show(J.properties()), ", was given with ", show(desc.at(v.first))); });
      c.state(Hash().i(J.properties().shape()).i(J.properties().isConstant()).i(J.properties().isInvertible()).i(J.properties().positiveness()));
    }
    if(f)
    {
      auto r = f->b();
      c.check(r == b, "function value", "constant term");
      c.check(!r.properties().isZero() || b.isZero(0), "function description", "the constant term is said zero");
      if(descB) c.check(sameDesc(r.properties(), *descB), "function given", [&] { return cat("the constant term is described by ", show(r.properties()), ", was given with ", show(*descB)); });
    }
  };
  verify();
  for(int s = 0; s < depth; ++s)
  {
    const int a = c.choose(f ? 4 : 3);
    if(a == 0) break;
    if(a == 3)
    {
      const int v = c.choose(3);
      b = v == 0 ? Eigen::Vector2d::Zero() : v == 1 ? Eigen::Vector2d(4, 5) : Eigen::Vector2d(-1, 0);
      const int d = c.choose(v == 0 ? 3 : 2);
      MP p = d == 0 ? MP() : d == 1 ? MP(MP::Constness(true)) : MP(MP::ZERO);
      c.step([&] { return cat("b(", b.transpose(), d == 0 ? ")" : d == 1 ? ", constant)" : ", zero)"); });
      if(d) f->b(b, p);
      else f->b(b);
      descB = std::make_unique<MP>(p);
    }
    else
    {
      Variable & v = a == 2 && two ? *y : *x;
      const int i = c.choose(static_cast<int>(given.size())), d = c.choose(3);
      const auto & g = given[static_cast<size_t>(i)];
      const MP p = d ? g.p[static_cast<size_t>(d - 1)] : MP();
      const bool only = !two && a == 2; // the call without the variable
      c.step([&] { return cat("A(", g.name, only ? "" : cat(", ", v.name()), d ? cat(", ", show(p)) : "", ")"); });
      auto call = [&](auto & o) {
        if(only && d) o.A(g.A, p);
        else if(only) o.A(g.A);
        else if(d) o.A(g.A, v, p);
        else o.A(g.A, v);
      };
      if(f) call(*f);
      else call(*k);
      val[&v] = g.A;
      desc[&v] = p;
    }
    verify();
  }
}

std::vector<Driver> drivers()
{
  return {{"construction", "every constructor call (any subset and order of arguments, any value), checked on all 1x1 (entries -2..2) and 2x2 (entries -1..1 and others) matrices and structured 3x3 ones abiding the declaration", [](Ctx & c) { construction(c); }, 2},
          {"operators", "every operator on every (pair of) distinct descriptions, checked on all these matrices (and 1x2, 2x1 ones) abiding them", [](Ctx & c) { operators(c); }, 2},
          {"objects", "every sequence of up to 4 (thorough: 5) assignments, compound assignments, copies and property changes on two matrices with properties", [](Ctx & c) { objects(c, c.thorough ? 5 : 4); }, 3},
          {"functions", "linear functions (5 ways to build one) and constraints (2) of one or two variables, and every sequence of up to 3 (thorough: 4) changes of a matrix (7 matrices, 3 descriptions, with and without naming the variable) or of the constant term", [](Ctx & c) { functions(c, c.thorough ? 4 : 3); }, 3}};
}
} // namespace
int main(int argc, char ** argv)
{
  return run(argc, argv, "C11", drivers(), {"square witnesses up to 3x3; rectangular zero matrices are outside the property (a description does not know about sizes)"});
}
