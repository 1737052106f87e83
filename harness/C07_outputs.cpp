// C07: outputs enabled statically and dynamically, input bookkeeping, refusal of disabled outputs.
#include "mc.h"

#include <tvm/graph/CallGraph.h>
#include <tvm/graph/abstract/Node.h>
#include <tvm/graph/abstract/OutputSelector.h>
#include <tvm/graph/abstract/Outputs.h>
#include <tvm/graph/internal/Inputs.h>

#include <map>
#include <memory>
#include <set>

using namespace mc;
using namespace tvm::graph::abstract;
using tvm::graph::CallGraph;
using tvm::graph::internal::Inputs;

namespace
{
template<typename F>
bool throws(F f)
{
  try
  {
    f();
  }
  catch(const std::exception &)
  {
    return true;
  }
  return false;
}

struct NodeInputs : public Inputs
{};

// ------------------------------------------------------------------------- hierarchies with static declarations
#define NOTHING
#define BASE(name, decl)              \
  struct name : public Node<name>     \
  {                                   \
    SET_OUTPUTS(name, B0, B1)         \
    SET_UPDATES(name, U)              \
    decl name() { registerUpdates(Update::U, &name::u); } \
    void u() {}                       \
    template<typename E>              \
    void dep(E e)                     \
    { addOutputDependency<name>(e, Update::U); } \
    template<typename E, typename S, typename I> \
    void dir(E e, S & s, I i)         \
    { addDirectDependency<name>(e, s, i); } \
  };
#define DERIVED(name, base, decl)     \
  struct name : public base           \
  {                                   \
    SET_OUTPUTS(name, D0, D1)         \
    decl using Top = base;            \
    template<typename E>              \
    void dep(E e)                     \
    { addOutputDependency<name>(e, Update::U); } \
    template<typename E, typename S, typename I> \
    void dir(E e, S & s, I i)         \
    { addDirectDependency<name>(e, s, i); } \
  };
#define LEAF(name, base, decl)        \
  struct name : public base           \
  {                                   \
    decl                              \
    template<typename E>              \
    void dep(E e)                     \
    { this->template addOutputDependency<name>(e, base::Update::U); } \
    template<typename E, typename S, typename I> \
    void dir(E e, S & s, I i)         \
    { this->template addDirectDependency<name>(e, s, i); } \
  };

BASE(BNone, NOTHING)
BASE(BB1, DISABLE_OUTPUTS(Output::B1))
BASE(BAll, DISABLE_OUTPUTS(Output::B0, Output::B1))
#define FAMILY(b)                                             \
  DERIVED(b##_None, b, NOTHING)                               \
  DERIVED(b##_Clear, b, CLEAR_DISABLED_OUTPUTS())             \
  DERIVED(b##_D0, b, DISABLE_OUTPUTS(Output::D0))             \
  DERIVED(b##_D1B0, b, DISABLE_OUTPUTS(Output::D1, b::Output::B0)) \
  DERIVED(b##_All, b, DISABLE_OUTPUTS(b::Output::B0, b::Output::B1, Output::D0, Output::D1)) \
  LEAF(b##_None_L, b##_None, NOTHING)                         \
  LEAF(b##_Clear_L, b##_Clear, DISABLE_OUTPUTS(b##_Clear::Output::D1)) \
  LEAF(b##_D0_L, b##_D0, CLEAR_DISABLED_OUTPUTS())            \
  LEAF(b##_D1B0_L, b##_D1B0, NOTHING)                         \
  LEAF(b##_All_L, b##_All, DISABLE_OUTPUTS(b::Output::B1))
FAMILY(BNone)
FAMILY(BB1)
FAMILY(BAll)

/** The declaration closest to the class decides (mask of enabled outputs, B0 B1 D0 D1) */
template<typename C, typename D>
void oneClass(Ctx & c, const char * name, int mask)
{
  c.step([&] { return cat("class ", name, " enabled mask ", mask); });
  int which = c.choose(4); // output
  bool on = mask >> which & 1;
  using B = typename std::decay_t<D>::Top;
  static_assert(C::OutputSize == 4);
  C o;
  const Outputs & asOutputs = o;
  std::string what = cat(name, " output ", which, on ? " (enabled)" : " (disabled)");
  c.check(asOutputs.isOutputEnabled(which) == on, "enabled", what);
  c.check(asOutputs.isOutputStaticallyEnabled(which) == on, "static", what);
  auto withEnum = [&](auto e) {
    c.check(static_cast<int>(e) == which, "numbering", what);
    c.check(o.isOutputEnabled(e) == on, "enabled(enum)", what);
    c.check(C::OutputStaticallyEnabled(e) == on, "static(enum)", what);
    c.check(is_valid_output<C>(e), "valid", what);
    static const char * names[] = {"B0", "B1", "D0", "D1"};
    c.check(std::string(C::OutputName(e)) == names[which], "name", what);
    // as an input, by reference and by shared pointer, alone or after an enabled one
    Inputs in;
    c.check(throws([&] { in.addInput(o, e); }) == !on, "addInput", what);
    c.check(static_cast<bool>(in.getInput(&o)) == on, "getInput", what);
    auto s = std::make_shared<C>();
    Inputs in2;
    c.check(throws([&] { in2.addInput(s, e); }) == !on, "addInput(shared)", what);
    c.check(static_cast<bool>(in2.getInput(s)) == on, "getInput(shared)", what);
    c.check((s.use_count() > 1) == on, "ownership", what);
    // dependencies declared by the node on its own output
    c.check(throws([&] { o.dep(e); }) == !on, "addOutputDependency", what);
    C p;
    BNone src;
    c.check(throws([&] { p.dir(e, src, BNone::Output::B0); }) == !on, "addDirectDependency", what);
    if(on)
    {
      c.check(throws([&] { p.dir(e, src, BNone::Output::B1); }), "second direct dependency", what);
      c.check(throws([&] { p.dep(e); }), "mixed dependencies", what);
      C q;
      q.dep(e);
      c.check(throws([&] { q.dir(e, src, BNone::Output::B1); }), "mixed dependencies", what);
    }
  };
  if(which == 0) withEnum(B::Output::B0);
  if(which == 1) withEnum(B::Output::B1);
  if(which == 2) withEnum(D::Output::D0);
  if(which == 3) withEnum(D::Output::D1);
  c.state(Hash().s(name).i(which));
}

void statics(Ctx & c)
{
  // bits: 1 B0, 2 B1, 4 D0, 8 D1
#define CASES(b, bmask)                                                                             \
  [](Ctx & x) { oneClass<b##_None, b##_None>(x, #b "_None", (bmask) | 12); },                       \
      [](Ctx & x) { oneClass<b##_Clear, b##_Clear>(x, #b "_Clear", 15); },                          \
      [](Ctx & x) { oneClass<b##_D0, b##_D0>(x, #b "_D0", 15 - 4); },                               \
      [](Ctx & x) { oneClass<b##_D1B0, b##_D1B0>(x, #b "_D1B0", 15 - 8 - 1); },                     \
      [](Ctx & x) { oneClass<b##_All, b##_All>(x, #b "_All", 0); },                                 \
      [](Ctx & x) { oneClass<b##_None_L, b##_None>(x, #b "_None_L", (bmask) | 12); },               \
      [](Ctx & x) { oneClass<b##_Clear_L, b##_Clear>(x, #b "_Clear_L", 15 - 8); },                  \
      [](Ctx & x) { oneClass<b##_D0_L, b##_D0>(x, #b "_D0_L", 15); },                               \
      [](Ctx & x) { oneClass<b##_D1B0_L, b##_D1B0>(x, #b "_D1B0_L", 15 - 8 - 1); },                 \
      [](Ctx & x) { oneClass<b##_All_L, b##_All>(x, #b "_All_L", 15 - 2); }
  static const std::vector<std::function<void(Ctx &)>> cases = {CASES(BNone, 3), CASES(BB1, 1), CASES(BAll, 0)};
  c.pick(cases)(c);
}

// ---------------------------------------------------------------------------------------------- dynamic selection
struct P1 : public Node<P1>
{
  SET_OUTPUTS(P1, O0, O1)
};
struct P2 : public OutputSelector<P1>
{
  template<typename E>
  void on(E e)
  { enableOutput(e); }
  template<typename E>
  void off(E e)
  { disableOutput(e); }
  template<typename E, typename F>
  void on(E e, F f)
  { enableOutput(e, f); }
  template<typename E, typename F>
  void off(E e, F f)
  { disableOutput(e, f); }
};
struct P3 : public OutputSelector<P3, P2>
{
  SET_OUTPUTS(P3, O2, O3)
  DISABLE_OUTPUTS(P1::Output::O1)
  template<typename E>
  void on(E e)
  { enableOutput(e); }
  template<typename E>
  void off(E e)
  { disableOutput(e); }
  template<typename E, typename F>
  void on(E e, F f)
  { enableOutput(e, f); }
  template<typename E, typename F>
  void off(E e, F f)
  { disableOutput(e, f); }
};
struct P4 : public P3
{
  SET_OUTPUTS(P4, O4)
};
struct P5 : public OutputSelector<P4>
{
  template<typename E>
  void on(E e)
  { enableOutput(e); }
  template<typename E>
  void off(E e)
  { disableOutput(e); }
  template<typename E, typename F>
  void on(E e, F f)
  { enableOutput(e, f); }
  template<typename E, typename F>
  void off(E e, F f)
  { disableOutput(e, f); }
};

template<typename C, int N>
struct Apply
{
  /** calls f with the enum value of output i */
  template<typename F>
  static void with(int i, F f)
  {
    if(i == 0) return f(P1::Output::O0);
    if(i == 1) return f(P1::Output::O1);
    if constexpr(N > 2)
    {
      if(i == 2) return f(P3::Output::O2);
      if(i == 3) return f(P3::Output::O3);
    }
    if constexpr(N > 4)
      if(i == 4) return f(P4::Output::O4);
  }
};

template<typename C, int N>
void dynamic(Ctx & c, bool stat1)
{
  C o;
  std::vector<bool> dyn(N, true);
  bool locked = false;
  auto st = [&](int i) { return !(stat1 && i == 1); };
  auto observe = [&] {
    Hash h;
    for(int i = 0; i < N; ++i)
    {
      bool on = st(i) && dyn[static_cast<size_t>(i)];
      const Outputs & b = o;
      c.check(b.isOutputEnabled(i) == on, "enabled", [&] { return cat("output ", i, " isEnabled=", !on); });
      h.i(on);
      Apply<C, N>::with(i, [&](auto e) {
        c.check(o.isOutputEnabled(e) == on, "enabled(enum)", [&] { return cat("output ", i); });
        Inputs in;
        c.check(throws([&] { in.addInput(o, e); }) == !on, "addInput", [&] { return cat("output ", i, on ? " refused" : " accepted"); });
        c.check(static_cast<bool>(in.getInput(&o)) == on, "getInput", [&] { return cat("output ", i); });
      });
    }
    c.check(throws([&] { o.isOutputEnabled(N); }) && throws([&] { o.isOutputEnabled(N + 7); }), "unknown output", "no exception");
    c.check(o.isLocked() == locked, "lock", "wrong lock state");
    c.state(h.i(locked));
  };
  observe();
  int depth = (c.thorough ? 4 : 3) + (N == 2);
  for(int d = 0; d < depth; ++d)
  {
    int op = c.choose(6);
    if(op == 0) return;
    if(op == 1)
    {
      c.step("lock");
      o.lock();
      locked = true;
    }
    else if(op == 2)
    {
      c.step("unlock");
      o.unlock();
      locked = false;
    }
    else if(op < 5)
    {
      bool on = op == 3;
      int i = c.choose(N);
      c.step([&] { return cat(on ? "enable " : "disable ", i); });
      bool t = false;
      Apply<C, N>::with(i, [&](auto e) {
        t = throws([&] {
          if(on)
            o.on(e);
          else
            o.off(e);
        });
      });
      bool should = locked || (on && !st(i));
      c.check(t == should, "selection", [&] { return cat("output ", i, should ? ": accepted" : ": refused"); });
      if(!t) dyn[static_cast<size_t>(i)] = on;
    }
    else // two at once
    {
      bool on = c.flip();
      int i = c.choose(N), j = c.choose(N);
      if(i == j) c.prune();
      c.step([&] { return cat(on ? "enable " : "disable ", i, " and ", j); });
      bool t = false;
      Apply<C, N>::with(i, [&](auto e) {
        Apply<C, N>::with(j, [&](auto f) {
          t = throws([&] {
            if(on)
              o.on(e, f);
            else
              o.off(e, f);
          });
        });
      });
      bool should = locked || (on && (!st(i) || !st(j)));
      c.check(t == should, "selection", [&] { return cat("outputs ", i, " and ", j, should ? ": accepted" : ": refused"); });
      if(!t)
        dyn[static_cast<size_t>(i)] = dyn[static_cast<size_t>(j)] = on;
      else if(!locked && st(i))
        return; // partially applied: not specified
    }
    observe();
  }
}

// ------------------------------------------------------------------------------------------- input bookkeeping
/** Source with two levels, whose updates are traced */
std::vector<std::pair<int, int>> calls;
struct Src : public Node<Src>
{
  SET_OUTPUTS(Src, A, B, X)
  SET_UPDATES(Src, UA, UB)
  DISABLE_OUTPUTS(Output::X)
  int id;
  explicit Src(int i) : id(i)
  {
    registerUpdates(Update::UA, &Src::ua, Update::UB, &Src::ub);
    addOutputDependency<Src>(Output::A, Update::UA);
    addOutputDependency<Src>(Output::B, Update::UB);
  }
  void ua() { calls.push_back({id, 0}); }
  void ub() { calls.push_back({id, 1}); }
};
struct Src2 : public Src
{
  SET_OUTPUTS(Src2, C)
  SET_UPDATES(Src2, UC)
  explicit Src2(int i) : Src(i)
  {
    registerUpdates(Update::UC, &Src2::uc);
    addOutputDependency<Src2>(Output::C, Update::UC);
    addInternalDependency<Src2>(Update::UC, Src::Update::UB);
  }
  void uc() { calls.push_back({id, 2}); }
};

/** Inputs from 3 sources, added one or two at a time, by reference or shared pointer, removed one by one or all */
void inputs(Ctx & c)
{
  std::shared_ptr<Src2> s[2] = {std::make_shared<Src2>(0), std::make_shared<Src2>(1)};
  auto in = std::make_shared<Inputs>();
  std::set<int> has[2]; // 0: A, 1: B, 3: C
  bool shared[2] = {false, false};
  auto with = [](int o, auto f) {
    if(o == 0) return f(Src::Output::A);
    if(o == 1) return f(Src::Output::B);
    if(o == 2) return f(Src::Output::X);
    return f(Src2::Output::C);
  };
  auto observe = [&] {
    Hash h;
    std::set<std::pair<int, int>> want;
    for(int i = 0; i < 2; ++i)
    {
      auto it = in->getInput(s[i].get());
      c.check(static_cast<bool>(it) == !has[i].empty(), "present", [&] { return cat("source ", i); });
      if(it) c.check(it->second == has[i], "inputs", [&] { return cat("source ", i, " has ", it->second.size(), " inputs, expected ", has[i].size()); });
      c.check((s[i].use_count() > 1) == shared[i], "ownership", [&] { return cat("source ", i, " use count ", s[i].use_count()); });
      for(int o : has[i])
      {
        h.i(4 * i + o);
        if(o == 0) want.insert({i, 0});
        if(o == 1 || o == 3) want.insert({i, 1});
        if(o == 3) want.insert({i, 2});
      }
    }
    CallGraph g;
    g.add(in);
    g.update();
    calls.clear();
    g.execute();
    std::set<std::pair<int, int>> got(calls.begin(), calls.end());
    c.check(got == want && calls.size() == want.size(), "plan", "the updates run are not those of the inputs present");
    c.state(h.i(shared[0]).i(shared[1]));
  };
  int depth = c.thorough ? 4 : 3;
  for(int d = 0; d < depth; ++d)
  {
    int op = c.choose(6);
    int i = c.choose(2);
    if(op == 0)
    {
      if(i) c.prune();
      return;
    }
    if(op == 1 || op == 2) // add one
    {
      int o = c.choose(4);
      c.step([&] { return cat("add ", i, ".", o, op == 1 ? " by reference" : " by shared pointer"); });
      bool t = false;
      with(o, [&](auto e) {
        t = throws([&] {
          if(op == 1)
            in->addInput(*s[i], e);
          else
            in->addInput(s[i], e);
        });
      });
      c.check(t == (o == 2), "addInput", [&] { return cat("output ", o, t ? " refused" : " accepted"); });
      if(!t)
      {
        has[i].insert(o);
        if(op == 2) shared[i] = true;
      }
    }
    else if(op == 3) // add two
    {
      int o = c.choose(4), p = c.choose(4);
      bool sh = c.flip();
      c.step([&] { return cat("add ", i, ".", o, " and ", p); });
      bool t = false;
      with(o, [&](auto e) {
        with(p, [&](auto f) {
          t = throws([&] {
            if(sh)
              in->addInput(s[i], e, f);
            else
              in->addInput(*s[i], e, f);
          });
        });
      });
      bool should = o == 2 || p == 2;
      c.check(t == should, "addInput", [&] { return cat("outputs ", o, " and ", p, t ? " refused" : " accepted"); });
      if(t) return; // what a refused addition of several leaves is not specified
      has[i].insert(o);
      has[i].insert(p);
      if(sh) shared[i] = true;
    }
    else if(op == 4) // remove one or two
    {
      int o = c.choose(4), p = c.choose(5) - 1;
      c.step([&] { return cat("remove ", i, ".", o, " and ", p); });
      bool t = false;
      with(o, [&](auto e) {
        if(p < 0)
          t = throws([&] { in->removeInput(s[i].get(), e); });
        else
          with(p, [&](auto f) { t = throws([&] { in->removeInput(s[i].get(), e, f); }); });
      });
      bool should = !has[i].count(o) || (p >= 0 && !has[i].count(p));
      c.check(t == should, "removeInput", [&] { return cat("removal of ", o, " and ", p, t ? " refused" : " accepted"); });
      if(!t)
      {
        has[i].erase(o);
        has[i].erase(p);
        if(has[i].empty()) shared[i] = false;
      }
    }
    else // remove all of a source
    {
      c.step([&] { return cat("remove source ", i); });
      bool t = throws([&] { in->removeInput(s[i].get()); });
      c.check(t == has[i].empty(), "removeInput", "removal of a source absent accepted, or present refused");
      has[i].clear();
      shared[i] = false;
    }
    observe();
  }
}

// ------------------------------------------------------------------------------ data flows through a hierarchy
/** A consumer in two levels whose updates use outputs of the source */
struct User : public Node<User>
{
  SET_OUTPUTS(User, V, W)
  SET_UPDATES(User, UV, UW)
  User() { registerUpdates(Update::UV, &User::uv, Update::UW, &User::uw); }
  void uv() { calls.push_back({10, 0}); }
  void uw() { calls.push_back({10, 1}); }
};
struct User2 : public User
{
  SET_OUTPUTS(User2, Y)
  SET_UPDATES(User2, UY)
  User2() { registerUpdates(Update::UY, &User2::uy); }
  void uy() { calls.push_back({10, 2}); }
  template<typename E, typename S, typename... A>
  void in(E u, S && s, A... a)
  { addInputDependency<User2>(u, s, a...); }
  template<typename E, typename U>
  void out(E o, U u)
  { addOutputDependency<User2>(o, u); }
  template<typename E, typename U>
  void out(std::initializer_list<E> o, U u)
  { addOutputDependency<User2>(o, u); }
  template<typename A, typename B>
  void internal(A a, B b)
  { addInternalDependency<User2>(a, b); }
  template<typename E, typename S, typename A>
  void direct(E o, S && s, A a)
  { addDirectDependency<User2>(o, s, a); }
};

void flows(Ctx & c)
{
  auto s = std::make_shared<Src2>(0);
  User2 u;
  bool byShared = c.flip();
  std::set<int> recorded;                // inputs of u
  std::map<int, std::set<int>> in;       // update of u -> outputs of s
  auto withS = [](int o, auto f) {
    if(o == 0) return f(Src::Output::A);
    if(o == 1) return f(Src::Output::B);
    if(o == 2) return f(Src::Output::X);
    return f(Src2::Output::C);
  };
  auto withU = [](int k, auto f) {
    if(k == 0) return f(User::Update::UV);
    if(k == 1) return f(User::Update::UW);
    return f(User2::Update::UY);
  };
  auto declare = [&](int k, auto... e) {
    bool bad = false;
    ((bad = bad || static_cast<int>(e) == 2), ...);
    bool t = false;
    withU(k, [&](auto up) {
      t = throws([&] {
        if(byShared)
          u.in(up, s, e...);
        else
          u.in(up, *s, e...);
      });
    });
    c.check(t == bad, "addInputDependency", [&] { return cat("disabled output ", bad ? "accepted" : "not given but refused"); });
    if(!t)
      ((in[k].insert(static_cast<int>(e)), recorded.insert(static_cast<int>(e))), ...);
    return !t;
  };
  for(int k = 0; k < 3; ++k)
  {
    int form = c.choose(k == 0 ? 4 : k == 1 ? (c.thorough ? 3 : 2) : 3); // none, one output, two, three
    int o = form > 0 ? c.choose(4) : 0, p = form > 1 ? c.choose(4) : 0, q = form > 2 ? c.choose(4) : 0;
    bool ok = true;
    if(form) c.step([&] { return cat("update ", k, " uses ", o, form > 1 ? cat(",", p) : "", form > 2 ? cat(",", q) : ""); });
    withS(o, [&](auto a) {
      withS(p, [&](auto b) {
        withS(q, [&](auto d) {
          if(form == 1) ok = declare(k, a);
          if(form == 2) ok = declare(k, a, b);
          if(form == 3) ok = declare(k, a, b, d);
        });
      });
    });
    if(!ok) return;
  }
  auto it = u.getInput(s.get());
  c.check(static_cast<bool>(it) == !recorded.empty(), "recorded source", "the source of a dependency is not recorded as an input");
  if(it) c.check(it->second == recorded, "recorded inputs", "the inputs recorded are not those declared");
  // outputs of u
  u.internal(User2::Update::UY, User::Update::UV);
  int form = c.choose(3);
  std::map<int, std::set<int>> out;
  if(form == 0)
  {
    u.out(User::Output::V, User::Update::UV);
    u.out(User::Output::W, User::Update::UW);
    out[0] = {0};
    out[1] = {1};
  }
  else if(form == 1)
  {
    u.out({User::Output::V, User::Output::W}, User::Update::UW);
    out[0] = out[1] = {1};
  }
  else
  {
    u.direct(User::Output::V, *s, Src2::Output::C);
    u.out(User::Output::W, User::Update::UV);
    u.out(User::Output::W, User::Update::UW);
    out[1] = {0, 1};
  }
  u.out(User2::Output::Y, User2::Update::UY);
  out[2] = {2};
  auto inputs = std::make_shared<Inputs>();
  int req = 1 + c.choose(7);
  if(req & 1) inputs->addInput(u, User::Output::V);
  if(req & 2) inputs->addInput(u, User::Output::W);
  if(req & 4) inputs->addInput(u, User2::Output::Y);
  std::set<std::pair<int, int>> want;
  std::set<int> src;
  for(int o = 0; o < 3; ++o)
    if(req >> o & 1)
    {
      if(o == 0 && form == 2) src.insert(3);
      for(int k : out[o])
      {
        want.insert({10, k});
        if(k == 2) want.insert({10, 0});
      }
    }
  for(int k = 0; k < 3; ++k)
    if(want.count({10, k})) src.insert(in[k].begin(), in[k].end());
  for(int o : src)
  {
    if(o == 0) want.insert({0, 0});
    if(o == 1 || o == 3) want.insert({0, 1});
    if(o == 3) want.insert({0, 2});
  }
  CallGraph g;
  g.add(inputs);
  g.update();
  calls.clear();
  g.execute();
  std::set<std::pair<int, int>> got;
  for(auto & x : calls)
  {
    // the source is up to date before its user
    if(x.first == 10)
    {
      for(int o : in[x.second])
        c.check(o == 0 ? got.count({0, 0}) : o == 1 ? got.count({0, 1}) : got.count({0, 2}), "order", "an update ran before the output it uses");
      if(x.second == 2) c.check(got.count({10, 0}), "order", "internal dependency not honoured");
    }
    got.insert(x);
  }
  c.check(got == want && calls.size() == want.size(), "plan", [&] {
    std::string r = "ran";
    for(auto & x : calls) r += cat(" ", x.first, ".", x.second);
    r += ", expected";
    for(auto & x : want) r += cat(" ", x.first, ".", x.second);
    return r;
  });
  Hash h;
  for(auto & x : calls) h.i(10 * x.first + x.second);
  c.state(h);
}
} // namespace

int main(int argc, char ** argv)
{
  return run(argc, argv, "C07",
             {{"static", "30 classes in two- and three-level hierarchies with all kinds of static declarations (nothing, disable some, disable all, clear): each output, asked as integer, enum, input, output or direct dependency", statics, 1},
              {"dynamic-1", "a selector over 2 outputs: all sequences of 4 (5; 3 to 4 for more outputs) enable/disable/lock/unlock", [](Ctx & c) { dynamic<P2, 2>(c, false); }, 2},
              {"dynamic-2", "a selector deriving from a selector, 4 outputs, one statically disabled", [](Ctx & c) { dynamic<P3, 4>(c, true); }, 2},
              {"dynamic-3", "a third level over it, 5 outputs", [](Ctx & c) { dynamic<P5, 5>(c, true); }, 2},
              {"inputs", "all sequences of 3 (4) additions and removals of inputs from 2 sources, one or two at a time, by reference or shared pointer", inputs, 2},
              {"flows", "a node in two levels over a source in two levels: all input dependencies with 1 to 3 outputs at once, 3 forms of output dependencies, all requests", flows, 3}},
             {"A class that adds outputs below a selector is itself wrapped in a selector (as documented)",
              "When several outputs are given at once and one is refused, what was done with the others is not specified, except for removals"});
}
