// C17: change notifications against a list of the living registrations.
#include "mc.h"

#include <tvm/LinearizedControlProblem.h>
#include <tvm/Space.h>
#include <tvm/Variable.h>
#include <tvm/event/Listener.h>
#include <tvm/event/Source.h>
#include <tvm/internal/CallbackManager.h>
#include <tvm/internal/PairElementToken.h>
#include <tvm/requirements/AnisotropicWeight.h>
#include <tvm/requirements/SolvingRequirements.h>
#include <tvm/requirements/Weight.h>
#include <tvm/scheme/internal/ProblemComputationData.h>
#include <tvm/scheme/internal/helpers.h>
#include <tvm/scheme/internal/helpers.hpp>

#include <map>
#include <memory>
#include <set>

using namespace tvm;
using namespace mc;
using tvm::internal::CallbackManager;
using tvm::internal::PairElementToken;
using tvm::internal::PairElementTokenHandle;

namespace
{
// ------------------------------------------------------------------------------------------------ pairs of tokens
/** Tokens in slots; p[i] is the slot of the counterpart, -1 if none, -2 if the slot is empty */
void pairs(Ctx & c)
{
  const int N = 4;
  std::unique_ptr<PairElementToken> t[N];
  int p[N];
  for(int i = 0; i < N; ++i) p[i] = -2;
  auto unpair = [&](int i) {
    if(p[i] >= 0) p[p[i]] = -1;
    if(p[i] >= 0) p[i] = -1;
  };
  auto observe = [&] {
    Hash h;
    for(int i = 0; i < N; ++i)
    {
      h.i(p[i]);
      if(!t[i]) continue;
      c.check(t[i]->isPaired() == (p[i] >= 0), "paired",
              [&] { return cat("token ", i, " isPaired=", t[i]->isPaired(), " but its counterpart is ", p[i]); });
      for(int j = 0; j < N; ++j)
        if(t[j])
          c.check(t[i]->isPairedWith(*t[j]) == (p[i] == j), "pairedWith",
                  [&] { return cat("token ", i, " isPairedWith ", j, " wrong, counterpart is ", p[i]); });
      bool threw = false;
      const PairElementToken * o = nullptr;
      try
      {
        o = &t[i]->otherPairElement();
      }
      catch(const std::runtime_error &)
      {
        threw = true;
      }
      c.check(threw == (p[i] < 0), "otherPairElement", "refusal of otherPairElement does not match the pairing");
      if(!threw) c.check(o == t[p[i]].get(), "otherPairElement", "wrong counterpart");
    }
    c.state(h);
  };
  int depth = c.thorough ? 6 : 5;
  for(int d = 0; d < depth; ++d)
  {
    // slots in canonical order: the first empty slot is the only one where something is created
    int e = 0;
    while(e < N && t[e]) ++e;
    int op = c.choose(8);
    auto slot = [&] {
      std::vector<int> s;
      for(int i = 0; i < N; ++i)
        if(t[i]) s.push_back(i);
      if(s.empty()) c.prune();
      return c.pick(s);
    };
    switch(op)
    {
      case 0: // end here
        return;
      case 1:
        if(e == N) c.prune();
        c.step([&] { return cat("create ", e); });
        t[e].reset(new PairElementToken());
        p[e] = -1;
        break;
      case 2: // pair
      {
        int i = slot(), j = slot();
        if(i == j) c.prune();
        c.step([&] { return cat("pair ", i, " ", j); });
        bool should = p[i] < 0 && p[j] < 0, threw = false;
        try
        {
          t[i]->pairWith(*t[j]);
        }
        catch(const std::runtime_error &)
        {
          threw = true;
        }
        c.check(threw != should, "pairWith", "pairing accepted a paired token or refused unpaired ones");
        if(should) p[i] = j, p[j] = i;
        break;
      }
      case 3: // move construct
      {
        int j = slot();
        if(e == N) c.prune();
        c.step([&] { return cat("move-construct ", e, " from ", j); });
        t[e].reset(new PairElementToken(std::move(*t[j])));
        p[e] = p[j];
        if(p[e] >= 0) p[p[e]] = e;
        p[j] = -1;
        break;
      }
      case 4: // move assign
      {
        int i = slot(), j = slot();
        c.step([&] { return cat("move-assign ", i, " from ", j); });
        PairElementToken & a = *t[i];
        PairElementToken & b = *t[j];
        a = std::move(b);
        if(i == j)
        {
          // any of the two coherent outcomes
          if(!t[i]->isPaired()) unpair(i);
        }
        else
        {
          bool partner = p[i] == j;
          unpair(i);
          if(!partner)
          {
            p[i] = p[j];
            if(p[i] >= 0) p[p[i]] = i;
            p[j] = -1;
          }
        }
        break;
      }
      case 5: // assign a handle over an unpaired token
      {
        int i = slot(), j = slot();
        if(i == j || p[j] >= 0) c.prune();
        c.step([&] { return cat("assign to ", i, " the handle of ", j); });
        {
          PairElementTokenHandle h(*t[j]);
          c.check(h.isValid(), "handle", "fresh handle not valid");
          *t[i] = std::move(h);
          c.check(!h.isValid(), "handle", "used handle still valid");
        }
        unpair(i);
        p[i] = j;
        p[j] = i;
        break;
      }
      case 6: // construct from a handle
      {
        int j = slot();
        if(e == N || p[j] >= 0) c.prune();
        c.step([&] { return cat("construct ", e, " from the handle of ", j); });
        t[e].reset(new PairElementToken(PairElementTokenHandle(*t[j])));
        p[e] = j;
        p[j] = e;
        break;
      }
      case 7:
      {
        int i = slot();
        c.step([&] { return cat("destroy ", i); });
        unpair(i);
        t[i].reset();
        p[i] = -2;
        break;
      }
    }
    observe();
  }
}

// --------------------------------------------------------------------------------------------- callback managers
enum class Act
{
  None,
  DestroyOwn,     // the callback destroys the token that keeps it alive
  DestroyOther,   // the callback destroys the tokens of the others
  UnregisterOwn,  // the callback unregisters itself
  UnregisterOther,
  Register,       // the callback registers a new one with the same manager
  TriggerOther,   // the callback triggers the other manager
  TriggerAgain,   // the callback triggers its own manager once more (only the first time)
};
const char * actName[] = {"nothing",          "destroys its own token", "destroys the other tokens",   "unregisters itself",
                          "unregisters others", "registers a new one",    "triggers the other manager", "triggers again"};

struct World
{
  struct Reg
  {
    int mgr;
    Act act;
    bool alive = true;      // model: the token is alive and registered
    bool wasAlive = false;  // at the start of the innermost trigger
    int calls = 0;
    std::vector<char> payload; // checked from the callback
    std::unique_ptr<PairElementToken> token;
    bool nested = false;
  };
  std::unique_ptr<CallbackManager> m[2];
  std::vector<std::unique_ptr<Reg>> regs;
  Ctx * c = nullptr;
  int depth = 0;
  bool reentrant = false;

  /** Register through a new token */
  int add(int k, Act a)
  {
    int id = static_cast<int>(regs.size());
    regs.emplace_back(new Reg);
    Reg & r = *regs.back();
    r.mgr = k;
    r.act = a;
    r.token.reset(new PairElementToken(m[k]->registerCallback(function(id))));
    return id;
  }
  std::function<void()> function(int id)
  {
    // the callback owns a piece of memory, used after it acted: a callback destroyed while it runs is seen by ASan
    auto mark = std::make_unique<std::vector<int>>(std::vector<int>{id, 7 * id + 1});
    std::shared_ptr<std::vector<int>> s(std::move(mark));
    World * w = this;
    return [w, id, s]() {
      w->called(id);
      if(s->at(1) != 7 * id + 1) throw Violation{"callback", "callback data overwritten"};
    };
  }
  void kill(int id)
  {
    regs[static_cast<size_t>(id)]->alive = false;
    regs[static_cast<size_t>(id)]->token.reset();
  }
  void unreg(int id)
  {
    Reg & r = *regs[static_cast<size_t>(id)];
    m[r.mgr]->unregisterCallback(*r.token);
    r.alive = false;
    c->check(!r.token->isPaired(), "unregistered token", "the token of an unregistered callback says it is paired");
  }
  void called(int id)
  {
    Reg & r = *regs[static_cast<size_t>(id)];
    ++r.calls;
    c->check(r.alive, "dead callback called", [&] { return cat("callback ", id, " was called after its registration ended"); });
    if(r.nested) return;
    size_t n = regs.size();
    switch(r.act)
    {
      case Act::None:
        break;
      case Act::DestroyOwn:
        kill(id);
        break;
      case Act::DestroyOther:
        for(size_t i = 0; i < n; ++i)
          if(static_cast<int>(i) != id && regs[i]->token) kill(static_cast<int>(i));
        break;
      case Act::UnregisterOwn:
        unreg(id);
        break;
      case Act::UnregisterOther:
        for(size_t i = 0; i < n; ++i)
          if(static_cast<int>(i) != id && regs[i]->alive && m[regs[i]->mgr]) unreg(static_cast<int>(i));
        break;
      case Act::Register:
        if(depth < 3)
        {
          r.nested = true; // once
          add(r.mgr, Act::None);
        }
        break;
      case Act::TriggerOther:
        if(m[1 - r.mgr] && depth < 3)
        {
          r.nested = true;
          trigger(1 - r.mgr);
          r.nested = false;
        }
        break;
      case Act::TriggerAgain:
        if(depth < 2)
        {
          r.nested = true;
          trigger(r.mgr);
          r.nested = false;
        }
        break;
    }
  }
  void trigger(int k)
  {
    ++depth;
    // only the calls of this very trigger are counted: with nested ones, set the counters apart
    std::vector<int> saved;
    std::vector<char> aliveBefore;
    for(auto & r : regs)
    {
      saved.push_back(r->calls);
      r->calls = 0;
      aliveBefore.push_back(r->alive && r->mgr == k);
    }
    m[k]->run();
    for(size_t i = 0; i < regs.size(); ++i)
    {
      Reg & r = *regs[i];
      bool before = i < aliveBefore.size() && aliveBefore[i];
      bool fresh = i >= aliveBefore.size() && r.mgr == k;
      int n = r.calls;
      if(r.mgr == k || depth > 1 || true)
      {
        if(before && r.alive)
          c->check(n == 1, "calls", [&] { return cat("callback ", i, " living through the trigger was called ", n, " times"); });
        else if(before || fresh)
          c->check(n <= 1, "calls", [&] { return cat("callback ", i, " was called ", n, " times by one trigger"); });
        else if(r.mgr == k)
          c->check(n == 0, "calls", [&] { return cat("callback ", i, " not registered at the trigger was called"); });
      }
      r.calls = i < saved.size() ? saved[i] : 0;
    }
    --depth;
  }
  void observe()
  {
    Hash h;
    for(size_t i = 0; i < regs.size(); ++i)
    {
      Reg & r = *regs[i];
      h.i(r.mgr).i(r.alive).i(r.token != nullptr).i(static_cast<int>(r.act));
      if(r.token)
        c->check(r.token->isPaired() == r.alive, "token pairing", [&] {
          return cat("the token of callback ", i, " isPaired=", r.token->isPaired(), " while its registration is ",
                     r.alive ? "alive" : "over");
        });
    }
    h.i(m[0] != nullptr).i(m[1] != nullptr);
    c->state(h);
  }
};

void managers(Ctx & c, bool reentrant)
{
  World w;
  w.c = &c;
  w.m[0].reset(new CallbackManager());
  w.m[1].reset(new CallbackManager());
  int depth = c.thorough ? 6 : 5;
  int maxRegs = reentrant ? 3 : 4;
  for(int d = 0; d < depth; ++d)
  {
    int op = c.choose(reentrant ? 4 : 9);
    auto mgr = [&] {
      int k = c.choose(2);
      if(!w.m[k]) c.prune();
      return k;
    };
    auto reg = [&](bool token) {
      std::vector<int> s;
      for(size_t i = 0; i < w.regs.size(); ++i)
        if(!token || w.regs[i]->token) s.push_back(static_cast<int>(i));
      if(s.empty()) c.prune();
      return c.pick(s);
    };
    switch(op)
    {
      case 0:
        return;
      case 1: // register
      {
        if(static_cast<int>(w.regs.size()) >= maxRegs) c.prune();
        int k = mgr();
        Act a = reentrant ? static_cast<Act>(c.choose(8)) : Act::None;
        c.step([&] { return cat("register callback ", w.regs.size(), " in manager ", k, ", which ", actName[static_cast<int>(a)]); });
        w.add(k, a);
        break;
      }
      case 2: // trigger
      {
        int k = mgr();
        c.step([&] { return cat("trigger ", k); });
        w.trigger(k);
        break;
      }
      case 3: // destroy a token
      {
        int i = reg(true);
        c.step([&] { return cat("destroy token ", i); });
        w.kill(i);
        break;
      }
      case 4: // unregister, possibly with the wrong manager
      {
        int i = reg(true), k = mgr();
        auto & r = *w.regs[static_cast<size_t>(i)];
        c.step([&] { return cat("unregister ", i, " from manager ", k); });
        bool should = r.alive && r.mgr == k, threw = false;
        try
        {
          w.m[k]->unregisterCallback(*r.token);
        }
        catch(const std::runtime_error &)
        {
          threw = true;
        }
        c.check(threw != should, "unregister", "unregisterCallback accepted a foreign token or refused a registered one");
        if(should) r.alive = false;
        break;
      }
      case 5: // move the token
      {
        int i = reg(true);
        auto & r = *w.regs[static_cast<size_t>(i)];
        c.step([&] { return cat("move token ", i); });
        std::unique_ptr<PairElementToken> n(new PairElementToken(std::move(*r.token)));
        r.token = std::move(n);
        break;
      }
      case 6: // a token replaced by that of another registration: the former ends
      {
        int i = reg(true), j = reg(true);
        if(i == j) c.prune();
        c.step([&] { return cat("move token ", j, " over token ", i, ", then destroy the source"); });
        auto & a = *w.regs[static_cast<size_t>(i)];
        auto & b = *w.regs[static_cast<size_t>(j)];
        *a.token = std::move(*b.token);
        a.alive = false;
        b.token = std::move(a.token);
        break;
      }
      case 7: // a token reused for a new registration
      {
        if(static_cast<int>(w.regs.size()) >= maxRegs) c.prune();
        int i = reg(true), k = mgr();
        c.step([&] { return cat("reuse token ", i, " to register callback ", w.regs.size(), " in manager ", k); });
        auto & a = *w.regs[static_cast<size_t>(i)];
        int id = static_cast<int>(w.regs.size());
        w.regs.emplace_back(new World::Reg);
        auto & b = *w.regs.back();
        b.mgr = k;
        b.act = Act::None;
        *a.token = w.m[k]->registerCallback(w.function(id));
        a.alive = false;
        b.token = std::move(a.token);
        break;
      }
      case 8: // destroy a manager
      {
        int k = mgr();
        c.step([&] { return cat("destroy manager ", k); });
        w.m[k].reset();
        for(auto & r : w.regs)
          if(r->mgr == k) r->alive = false;
        break;
      }
    }
    w.observe();
  }
  // whatever remains is triggered a last time
  for(int k = 0; k < 2; ++k)
    if(w.m[k])
    {
      w.trigger(k);
      w.observe();
    }
}

// ------------------------------------------------------------------------------------------------- event sources
struct Ear : public event::Listener
{
  int heard = 0;
  const event::Source * from = nullptr;
  std::function<void()> onEvent;

protected:
  void process(event::Type, const event::Source & s) override
  {
    ++heard;
    from = &s;
    auto f = onEvent;
    if(f) f();
  }
};

void sources(Ctx & c)
{
  std::unique_ptr<event::Source> src[2] = {std::make_unique<event::Source>(), std::make_unique<event::Source>()};
  std::vector<std::shared_ptr<Ear>> ears;
  std::map<std::pair<int, int>, int> regs; // (source, ear) -> number of registrations
  const auto T = event::Type::CONTACT_NUMBER_CHANGED;
  int depth = c.thorough ? 7 : 6;
  for(int d = 0; d < depth; ++d)
  {
    int op = c.choose(6);
    auto source = [&] {
      int k = c.choose(2);
      if(!src[k]) c.prune();
      return k;
    };
    auto ear = [&] {
      std::vector<int> s;
      for(size_t i = 0; i < ears.size(); ++i)
        if(ears[i]) s.push_back(static_cast<int>(i));
      if(s.empty()) c.prune();
      return c.pick(s);
    };
    switch(op)
    {
      case 0:
        return;
      case 1:
      {
        if(ears.size() == 3) c.prune();
        c.step("new listener");
        ears.push_back(std::make_shared<Ear>());
        break;
      }
      case 2:
      {
        int k = source(), i = ear();
        if((regs[{k, i}]) == 1) c.prune();
        c.step([&] { return cat("listener ", i, " registers to source ", k); });
        src[k]->regist(ears[static_cast<size_t>(i)], T);
        ++regs[{k, i}];
        break;
      }
      case 3:
      {
        int i = ear();
        c.step([&] { return cat("destroy listener ", i); });
        ears[static_cast<size_t>(i)].reset();
        break;
      }
      case 4:
      {
        int k = source();
        c.step([&] { return cat("source ", k, " notifies"); });
        for(auto & e : ears)
          if(e) e->heard = 0, e->from = nullptr;
        src[k]->notify(T);
        for(size_t i = 0; i < ears.size(); ++i)
          if(ears[i])
          {
            int r = regs[{k, static_cast<int>(i)}];
            c.check(ears[i]->heard == r, "event calls", [&] { return cat("listener ", i, " heard ", ears[i]->heard, " times, expected ", r); });
            if(r) c.check(ears[i]->from == src[k].get(), "event source", "wrong notifier given");
          }
        break;
      }
      case 5:
      {
        int k = source();
        c.step([&] { return cat("destroy source ", k); });
        src[k].reset();
        break;
      }
    }
    Hash h;
    for(auto & e : ears) h.i(e != nullptr);
    for(auto & r : regs) h.i(r.first.first).i(r.first.second).i(r.second);
    c.state(h);
  }
}

// ------------------------------------------------------------------------------------- tasks shared by problems
struct Data : public scheme::internal::ProblemComputationData
{
  explicit Data(int id) : ProblemComputationData(id) {}

protected:
  void setVariablesToSolution_(tvm::internal::VariableCountingVector &) override {}
};
struct Probe
{
  int i;
  int id() const { return i; }
  template<typename P>
  std::unique_ptr<scheme::internal::ProblemComputationData> createComputationData(const P &) const
  { return std::make_unique<Data>(i); }
};
using Evt = scheme::internal::ProblemDefinitionEvent;
using ET = Evt::Type;

struct Prob
{
  std::unique_ptr<LinearizedControlProblem> pb;
  std::vector<int> tasks;                                  // in order of addition
  std::map<int, std::vector<std::pair<ET, int>>> expected; // per scheme attached
};

void problems(Ctx & c)
{
  Space s(1);
  VariablePtr x = s.createVariable("x");
  Prob P[2];
  std::vector<TaskWithRequirementsPtr> tr;   // the user's reference, may be dropped
  std::vector<const TaskWithRequirements *> raw;
  auto attach = [&](int k, int sch) {
    scheme::internal::getComputationData(*P[k].pb, Probe{sch});
    P[k].expected[sch];
  };
  P[0].pb.reset(new LinearizedControlProblem());
  P[1].pb.reset(new LinearizedControlProblem());
  attach(0, 0);
  attach(1, 0);
  auto push = [&](int k, ET e, int t) {
    for(auto & q : P[k].expected) q.second.push_back({e, t});
  };
  auto in = [&](int k, int t) { return std::find(P[k].tasks.begin(), P[k].tasks.end(), t) != P[k].tasks.end(); };
  auto observe = [&] {
    Hash h;
    for(int k = 0; k < 2; ++k)
    {
      if(!P[k].pb) continue;
      c.check(P[k].pb->size() == static_cast<int>(P[k].tasks.size()), "tasks", "wrong number of tasks");
      for(size_t i = 0; i < P[k].tasks.size(); ++i)
        c.check(P[k].pb->tasks()[i].get() == raw[static_cast<size_t>(P[k].tasks[i])], "tasks", "wrong list of tasks");
      for(auto & q : P[k].expected)
      {
        auto * data = scheme::internal::getComputationData(*P[k].pb, Probe{q.first});
        const auto & ev = data->events();
        auto show = [&] {
          std::string r = cat("problem ", k, ", scheme ", q.first, ": got");
          for(auto & e : ev)
          {
            size_t i = 0;
            while(i < raw.size() && static_cast<const void *>(raw[i]) != e.emitter()) ++i;
            r += cat(" ", static_cast<int>(e.type()), "/", i);
          }
          r += ", expected";
          for(auto & e : q.second) r += cat(" ", static_cast<int>(e.first), "/", e.second);
          return r;
        };
        c.check(ev.size() == q.second.size(), "events", show);
        for(size_t i = 0; i < q.second.size(); ++i)
        {
          c.check(ev[i].type() == q.second[i].first, "events", show);
          c.check(ev[i].emitter() == static_cast<const void *>(raw[static_cast<size_t>(q.second[i].second)]), "events", show);
          h.i(static_cast<int>(ev[i].type())).i(q.second[i].second);
        }
        h.i(-1);
      }
    }
    for(auto & t : tr) h.i(t != nullptr);
    c.state(h);
  };
  int depth = c.thorough ? 6 : 5;
  for(int d = 0; d < depth; ++d)
  {
    int op = c.choose(10);
    auto prob = [&] {
      int k = c.choose(2);
      if(!P[k].pb) c.prune();
      return k;
    };
    auto task = [&] {
      std::vector<int> v;
      for(size_t i = 0; i < tr.size(); ++i)
        if(tr[i]) v.push_back(static_cast<int>(i));
      if(v.empty()) c.prune();
      return c.pick(v);
    };
    switch(op)
    {
      case 0:
        d = depth;
        break;
      case 1: // new task
      {
        if(tr.size() == 2) c.prune();
        int k = prob();
        c.step([&] { return cat("add new task ", tr.size(), " to problem ", k); });
        tr.push_back(P[k].pb->add(x >= 0., requirements::SolvingRequirements(requirements::PriorityLevel(1))));
        raw.push_back(tr.back().get());
        P[k].tasks.push_back(static_cast<int>(tr.size()) - 1);
        push(k, ET::TaskAddition, static_cast<int>(tr.size()) - 1);
        break;
      }
      case 2: // share it
      {
        int t = task(), k = prob();
        if(in(k, t)) c.prune();
        c.step([&] { return cat("add task ", t, " to problem ", k); });
        P[k].pb->add(tr[static_cast<size_t>(t)]);
        P[k].tasks.push_back(t);
        push(k, ET::TaskAddition, t);
        break;
      }
      case 3: // remove, through the problem's own reference
      {
        int k = prob();
        if(tr.empty()) c.prune();
        int t = c.choose(static_cast<int>(tr.size()));
        bool there = in(k, t);
        if(!there && !tr[static_cast<size_t>(t)]) c.prune();
        c.step([&] { return cat("remove task ", t, " from problem ", k); });
        P[k].pb->remove(*raw[static_cast<size_t>(t)]);
        if(!there) break; // ignored
        P[k].tasks.erase(std::find(P[k].tasks.begin(), P[k].tasks.end(), t));
        for(auto & q : P[k].expected)
        {
          bool added = false;
          for(size_t i = 0; i < q.second.size();)
          {
            if(q.second[i].second == t && q.second[i].first != ET::TaskRemoval)
            {
              added = added || q.second[i].first == ET::TaskAddition;
              q.second.erase(q.second.begin() + static_cast<long>(i));
            }
            else
              ++i;
          }
          if(!added) q.second.push_back({ET::TaskRemoval, t});
        }
        break;
      }
      case 4: // weight
      case 5:
      {
        int t = task();
        auto & req = tr[static_cast<size_t>(t)]->requirements;
        if(op == 4)
        {
          int how = c.choose(3);
          c.step([&] { return cat("change the weight of task ", t, how == 0 ? " (value)" : how == 1 ? " (=)" : " (= Weight)"); });
          if(how == 0)
            req.weight().value(2.);
          else if(how == 1)
            req.weight() = 3.;
          else
            req.weight() = requirements::Weight(4.);
        }
        else
        {
          c.step([&] { return cat("change the anisotropic weight of task ", t); });
          req.anisotropicWeight().value(Eigen::VectorXd::Constant(1, 2.));
        }
        for(int k = 0; k < 2; ++k)
          if(P[k].pb && in(k, t)) push(k, op == 4 ? ET::WeightChange : ET::AnisotropicWeightChange, t);
        break;
      }
      case 6: // drop the user's reference
      {
        int t = task();
        bool held = false;
        for(int k = 0; k < 2; ++k) held = held || (P[k].pb && in(k, t));
        c.step([&] { return cat("drop the reference on task ", t); });
        tr[static_cast<size_t>(t)].reset();
        (void)held;
        break;
      }
      case 7: // destroy a problem
      {
        int k = prob();
        c.step([&] { return cat("destroy problem ", k); });
        P[k].pb.reset();
        P[k].tasks.clear();
        P[k].expected.clear();
        break;
      }
      case 8: // the scheme reads its events; or a new scheme comes
      {
        int k = prob();
        bool second = !P[k].expected.count(1) && c.flip();
        if(second)
        {
          c.step([&] { return cat("second scheme attached to problem ", k); });
          attach(k, 1);
        }
        else
        {
          c.step([&] { return cat("scheme 0 reads the events of problem ", k); });
          auto * data = scheme::internal::getComputationData(*P[k].pb, Probe{0});
          while(data->hasEvents()) (void)data->popEvent();
          P[k].expected[0].clear();
        }
        break;
      }
      case 9: // problem 1 rebuilt as a copy of problem 0
      {
        if(!P[0].pb) c.prune();
        c.step("problem 1 rebuilt from the tasks of problem 0");
        P[1].pb.reset(new LinearizedControlProblem(static_cast<const ControlProblem &>(*P[0].pb)));
        P[1].tasks = P[0].tasks;
        P[1].expected.clear();
        attach(1, 0);
        break;
      }
    }
    observe();
  }
  // tear down in one of the orders
  if(c.flip())
  {
    P[1].pb.reset();
    P[0].pb.reset();
  }
  else
  {
    tr.clear();
    P[0].pb.reset();
  }
}
} // namespace

int main(int argc, char ** argv)
{
  return run(argc, argv, "C17",
             {{"pairs", "all sequences of create/pair/move/assign/handle/destroy on up to 4 tokens, depth 5 (6)", pairs, 3},
              {"managers", "2 managers, up to 4 registrations: register, trigger, destroy/move/replace/reuse tokens, unregister, destroy managers, depth 5 (6)",
               [](Ctx & c) { managers(c, false); }, 3},
              {"reentrant",
               "callbacks that act on the registry while it runs (destroy, unregister, register, trigger), up to 3 registrations, depth 5 (6)",
               [](Ctx & c) { managers(c, true); }, 3},
              {"sources", "2 event sources and up to 3 listeners: register, destroy, notify, depth 6 (7)", sources, 3},
              {"problems",
               "2 problems sharing up to 2 tasks: add, share, remove, change weights, drop references, destroy and rebuild problems, attach schemes, read events, depth 5 (6)",
               problems, 3}},
             {"a token is not paired with itself, and a handle is used before anything else happens to its token",
              "a callback does not destroy its own manager",
              "a task is not added twice to the same problem (the library asserts it)"});
}
