#include "mc.h"

#include <algorithm>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
#include <unordered_set>

extern "C" const char * __asan_default_options()
{ return "detect_leaks=0:quarantine_size_mb=32:allocator_may_return_null=0:detect_stack_use_after_return=0:handle_abort=0:malloc_context_size=12"; }

namespace mc
{
namespace
{
using clk = std::chrono::steady_clock;
constexpr int MAXC = 4000;
struct Slot
{
  volatile int driver;
  volatile int n;
  volatile int choices[MAXC];
  volatile uint64_t execs; // heartbeat
  volatile uint64_t total;
};
struct Explorer
{
  Slot * slot = nullptr;
  int worker = 0, workers = 1, splitDepth = 0;
  bool skipping = true;
  int64_t prefixIdx = -1; // index of the current prefix of length splitDepth
  std::vector<int> lastPrefix;
  std::unordered_set<uint64_t> states;
  uint64_t salt = 0;
};

bool owned(Explorer & e, const std::vector<int> & choices, size_t n)
{
  // called when the prefix of length n=min(splitDepth, length of the execution) is known
  std::vector<int> p(choices.begin(), choices.begin() + static_cast<long>(n));
  if(e.prefixIdx < 0 || p != e.lastPrefix)
  {
    ++e.prefixIdx;
    e.lastPrefix = p;
  }
  return e.prefixIdx % e.workers == e.worker;
}
} // namespace

int Ctx::choose(int n)
{
  if(n <= 0) throw Violation{"harness", "choose(0)"};
  int c;
  if(pos < choices.size())
  {
    if(arity[pos] == -1) arity[pos] = n; // replay file: arity unknown
    if(arity[pos] != n) throw Violation{"harness-nondeterminism", cat("replayed choice ", pos, " had arity ", arity[pos], " and has now ", n)};
    if(choices[pos] >= n) throw Violation{"harness-nondeterminism", "replayed choice out of range"};
    c = choices[pos];
  }
  else
  {
    c = 0;
    choices.push_back(0);
    arity.push_back(n);
  }
  ++pos;
  auto * e = static_cast<Explorer *>(impl);
  if(e)
  {
    if(e->slot && pos <= MAXC)
    {
      e->slot->choices[pos - 1] = c;
      e->slot->n = static_cast<int>(pos);
    }
    if(static_cast<int>(pos) == e->splitDepth && e->workers > 1)
    {
      if(!owned(*e, choices, pos)) throw SkipPrefix();
    }
  }
  return c;
}

void Ctx::state(uint64_t h)
{
  auto * e = static_cast<Explorer *>(impl);
  if(e) e->states.insert(h ^ e->salt);
}

namespace
{
std::string jstr(const std::string & s)
{
  std::string o = "\"";
  for(char ch : s)
  {
    unsigned char c = static_cast<unsigned char>(ch);
    if(c == '"' || c == '\\')
    {
      o += '\\';
      o += ch;
    }
    else if(c == '\n')
      o += "\\n";
    else if(c == '\t')
      o += "\\t";
    else if(c < 0x20 || c >= 0x7f)
    {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    }
    else
      o += ch;
  }
  return o + "\"";
}

struct Known
{
  std::string property, driver, match, text;
};

/** Minimal reader of known_findings.txt: lines "known: property=<id> driver=<name> match=<substring of 'key: msg'> | text" */
std::vector<Known> readKnown(const std::string & file, const std::string & property)
{
  std::vector<Known> out;
  std::ifstream f(file);
  std::string l;
  while(std::getline(f, l))
  {
    if(l.rfind("known: ", 0) != 0) continue;
    auto get = [&](const std::string & k, const std::string & end) {
      auto p = l.find(k);
      if(p == std::string::npos) return std::string();
      p += k.size();
      auto q = l.find(end, p);
      return l.substr(p, q == std::string::npos ? q : q - p);
    };
    Known k;
    k.property = get("property=", " ");
    k.driver = get("driver=", " ");
    k.match = get("match={", "}");
    k.text = get("} ", "\n");
    if(k.property == property && !k.match.empty()) out.push_back(k);
  }
  return out;
}

struct Result
{
  int kind = 0; // 0 ok, 1 violation, 2 crash, 3 hang
  std::string key, msg;
  std::vector<std::string> trace;
  uint64_t transitions = 0, checks = 0;
};

/** Run one execution in this process. */
Result runOnce(const Driver & d, bool thorough, const std::vector<int> & choices, Explorer * e, bool tracing)
{
  Ctx c;
  c.thorough = thorough;
  c.choices = choices;
  c.arity.assign(choices.size(), -1);
  c.impl = e;
  c.tracing = tracing;
  Result r;
  try
  {
    d.body(c);
  }
  catch(const Violation & v)
  {
    r.kind = 1;
    r.key = v.key;
    r.msg = v.msg;
  }
  catch(const Prune &)
  {
  }
  catch(const std::exception & ex)
  {
    r.kind = 1;
    r.key = "unexpected-exception";
    r.msg = ex.what();
  }
  r.trace = c.trace;
  r.transitions = c.transitions;
  r.checks = c.checks;
  return r;
}

std::string slurp(const std::string & f)
{
  std::ifstream i(f);
  std::stringstream s;
  s << i.rdbuf();
  return s.str();
}

/** Run one execution in a fresh process, capturing a crash or hang. */
Result runForked(const Driver & d, bool thorough, const std::vector<int> & choices, const std::string & tmp, int limit_s, bool quiet)
{
  std::string rf = tmp + "/replay_result", ef = tmp + "/replay_stderr";
  unlink(rf.c_str());
  fflush(stdout);
  std::cout.flush();
  pid_t p = fork();
  if(p == 0)
  {
    if(quiet)
    {
      int fd = open(ef.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
      dup2(fd, 2);
      int dn = open("/dev/null", O_WRONLY);
      dup2(dn, 1);
    }
    auto r = runOnce(d, thorough, choices, nullptr, true);
    std::ofstream o(rf);
    o << r.kind << "\n" << r.key << "\n" << r.trace.size() << "\n";
    for(auto t : r.trace)
    {
      std::replace(t.begin(), t.end(), '\n', ' ');
      o << t << "\n";
    }
    o << r.msg;
    o.close();
    _exit(0);
  }
  auto t0 = clk::now();
  int st = 0;
  bool hang = false;
  while(waitpid(p, &st, WNOHANG) == 0)
  {
    if(std::chrono::duration<double>(clk::now() - t0).count() > limit_s)
    {
      kill(p, SIGKILL);
      waitpid(p, &st, 0);
      hang = true;
      break;
    }
    std::this_thread::sleep_for(std::chrono::milliseconds(5));
  }
  Result r;
  if(hang)
  {
    r.kind = 3;
    r.key = "hang";
    r.msg = "execution does not end";
    return r;
  }
  if(WIFEXITED(st) && WEXITSTATUS(st) == 0)
  {
    std::ifstream i(rf);
    std::string l;
    std::getline(i, l);
    r.kind = l.empty() ? 2 : std::stoi(l);
    std::getline(i, r.key);
    std::getline(i, l);
    size_t n = l.empty() ? 0 : std::stoul(l);
    for(size_t k = 0; k < n; ++k)
    {
      std::getline(i, l);
      r.trace.push_back(l);
    }
    std::stringstream s;
    s << i.rdbuf();
    r.msg = s.str();
    return r;
  }
  r.kind = 2;
  r.key = "crash";
  r.msg = cat("process ended abnormally (status ", st, "): ", slurp(ef).substr(0, 6000));
  return r;
}
} // namespace

int run(int argc, char ** argv, const std::string & property, const std::vector<Driver> & drivers, const std::vector<std::string> & assumptions)
{
  signal(SIGCHLD, SIG_DFL); // an inherited SIG_IGN would make waitpid fail
  bool thorough = false, list = false;
  std::string evidence, replay, knownFile, outdir = ".", only;
  int workers = static_cast<int>(std::thread::hardware_concurrency());
  if(workers < 1) workers = 4;
  if(workers > 16) workers = 16;
  double limit = 300;
  for(int i = 1; i < argc; ++i)
  {
    std::string a = argv[i];
    auto next = [&]() { return std::string(argv[++i]); };
    if(a == "--tier") thorough = next() == "thorough";
    else if(a == "--evidence") evidence = next();
    else if(a == "--replay") replay = next();
    else if(a == "--known") knownFile = next();
    else if(a == "--out") outdir = next();
    else if(a == "--workers") workers = std::stoi(next());
    else if(a == "--limit") limit = std::stod(next());
    else if(a == "--driver") only = next();
    else if(a == "--list") list = true;
  }
  if(list)
  {
    for(auto & d : drivers) std::cout << d.name << ": " << d.what << "\n";
    return 0;
  }
  auto known = knownFile.empty() ? std::vector<Known>() : readKnown(knownFile, property);
  auto isKnown = [&](const std::string & driver, const std::string & key, const std::string & msg) -> const Known * {
    for(auto & k : known)
      if((k.driver == driver || k.driver == "*") && (key + ": " + msg).find(k.match) != std::string::npos) return &k;
    return nullptr;
  };

  if(!replay.empty())
  {
    // format: line 1 "driver <name>", line 2 "tier <t>", line 3 "choices a b c ..."
    std::ifstream f(replay);
    std::string w, name;
    std::vector<int> ch;
    std::string l;
    while(std::getline(f, l))
    {
      std::istringstream is(l);
      is >> w;
      if(w == "driver") is >> name;
      if(w == "tier")
      {
        is >> w;
        thorough = w == "thorough";
      }
      if(w == "choices")
      {
        int v;
        while(is >> v) ch.push_back(v);
      }
    }
    for(auto & d : drivers)
      if(d.name == name)
      {
        auto r = runForked(d, thorough, ch, outdir, 120, false);
        for(auto & t : r.trace) std::cout << t << "\n";
        std::cout << (r.kind ? "VIOLATES " : "HOLDS ") << r.key << ": " << r.msg << std::endl;
        return r.kind ? 1 : 0;
      }
    std::cerr << "no such driver " << name << "\n";
    return 2;
  }

  auto t0 = clk::now();
  auto elapsed = [&]() { return std::chrono::duration<double>(clk::now() - t0).count(); };
  size_t slotsz = sizeof(Slot) * static_cast<size_t>(workers);
  Slot * slots = static_cast<Slot *>(mmap(nullptr, slotsz, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  std::string tmp = outdir + "/mc_" + property + "_" + std::to_string(getpid());
  mkdir(tmp.c_str(), 0755);

  struct DStat
  {
    uint64_t execs = 0, trans = 0, checks = 0, states = 0, pruned = 0;
    size_t maxdepth = 0;
    bool capped = false;
    double wall = 0;
    std::vector<std::pair<std::vector<int>, std::vector<std::string>>> samples;
  };
  std::vector<DStat> stats(drivers.size());
  struct V
  {
    size_t driver;
    std::vector<int> choices;
    Result r;
  };
  std::vector<V> viols;
  std::set<std::string> knownHit;
  int alarms = 0;

  auto explore = [&](size_t di) {
    const auto & d = drivers[di];
    auto td = elapsed();
    // each driver may use what remains but for a share kept for the next ones
    double share = !only.empty() || di + 1 == drivers.size() ? 1. : std::max(0.45, 1. / static_cast<double>(drivers.size() - di));
    const double deadline = td + std::max(0., limit - td) * share;
    std::vector<pid_t> pids;
    fflush(stdout);
    for(int w = 0; w < workers; ++w)
    {
      slots[w].driver = static_cast<int>(di);
      slots[w].n = 0;
      slots[w].execs = 0;
      slots[w].total = 0;
      pid_t p = fork();
      if(p == 0)
      {
        // silence the library
        int dn = open("/dev/null", O_WRONLY);
        dup2(dn, 1);
        int er = open((tmp + "/stderr." + std::to_string(w)).c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
        dup2(er, 2);
        Explorer e;
        e.slot = &slots[w];
        e.worker = w;
        e.workers = workers;
        e.splitDepth = d.splitDepth;
        e.salt = di * 0x9E3779B97F4A7C15ull;
        DStat s;
        std::vector<int> ch, ar;
        std::string out;
        bool stop = false;
        int nviol = 0;
        std::map<std::string, uint64_t> knownCount;
        std::ofstream vf(tmp + "/viol." + std::to_string(w));
        uint64_t nextSample = 1;
        while(!stop)
        {
          Ctx c;
          c.thorough = thorough;
          c.choices = ch;
          c.arity = ar;
          c.impl = &e;
          c.tracing = (s.execs + 1 == nextSample) && s.samples.size() < 3;
          slots[w].n = 0;
          slots[w].total = slots[w].total + 1;
          bool skip = false;
          bool pruned = false;
          int kind = 0;
          std::string key, msg;
          try
          {
            d.body(c);
          }
          catch(const SkipPrefix &)
          {
            skip = true;
          }
          catch(const Prune &)
          {
            pruned = true;
          }
          catch(const Violation & v)
          {
            kind = 1;
            key = v.key;
            msg = v.msg;
          }
          catch(const std::exception & ex)
          {
            kind = 1;
            key = "unexpected-exception";
            msg = ex.what();
          }
          if(!skip && static_cast<int>(c.pos) < d.splitDepth && workers > 1) skip = !owned(e, c.choices, c.pos);
          if(c.pos < c.choices.size() && !skip && kind == 0 && !pruned)
          {
            kind = 1;
            key = "harness-nondeterminism";
            msg = "an execution used fewer choices than its prefix";
          }
          if(!skip)
          {
            ++s.execs;
            if(pruned) ++s.pruned;
            s.trans += c.transitions;
            s.checks += c.checks;
            s.maxdepth = std::max(s.maxdepth, c.pos);
            if(c.tracing)
            {
              s.samples.push_back({std::vector<int>(c.choices.begin(), c.choices.begin() + static_cast<long>(c.pos)), c.trace});
              nextSample = nextSample * 37;
            }
            slots[w].execs = s.execs;
            if(kind)
            {
              if(auto * k = isKnown(d.name, key, msg))
                ++knownCount[k->text];
              else
              {
                std::replace(key.begin(), key.end(), '\n', ' ');
                vf << c.pos;
                for(size_t k = 0; k < c.pos; ++k) vf << " " << c.choices[k];
                std::replace(msg.begin(), msg.end(), '\n', ' ');
                vf << "\n" << key << "\n" << msg << "\n";
                vf.flush();
                if(++nviol >= 1) stop = s.capped = true;
              }
            }
          }
          // next
          ch.assign(c.choices.begin(), c.choices.begin() + static_cast<long>(c.pos));
          ar.assign(c.arity.begin(), c.arity.begin() + static_cast<long>(c.pos));
          while(!ch.empty() && ch.back() + 1 >= ar.back())
          {
            ch.pop_back();
            ar.pop_back();
          }
          if(ch.empty()) break;
          ++ch.back();
          if((slots[w].total & 15) == 0 && elapsed() > deadline)
          {
            s.capped = true;
            stop = true;
          }
        }
        vf.close();
        std::ofstream o(tmp + "/stat." + std::to_string(w));
        o << s.execs << " " << s.trans << " " << s.checks << " " << s.pruned << " " << s.maxdepth << " " << s.capped << " " << e.states.size() << "\n";
        o << s.samples.size() << "\n";
        for(auto & sm : s.samples)
        {
          o << sm.first.size();
          for(int v : sm.first) o << " " << v;
          o << "\n" << sm.second.size() << "\n";
          for(auto t : sm.second)
          {
            std::replace(t.begin(), t.end(), '\n', ' ');
            o << t << "\n";
          }
        }
        for(auto & k : knownCount) o << "K " << k.first << "\n";
        o.close();
        std::ofstream sf(tmp + "/states." + std::to_string(w), std::ios::binary);
        for(auto h : e.states) sf.write(reinterpret_cast<const char *>(&h), sizeof h);
        sf.close();
        _exit(0);
      }
      pids.push_back(p);
    }
    // supervise
    std::vector<bool> alive(pids.size(), true);
    std::vector<uint64_t> last(pids.size(), 0);
    std::vector<double> lastT(pids.size(), elapsed());
    size_t nalive = pids.size();
    std::unordered_set<uint64_t> all;
    while(nalive > 0)
    {
      std::this_thread::sleep_for(std::chrono::milliseconds(10));
      for(size_t w = 0; w < pids.size(); ++w)
      {
        if(!alive[w]) continue;
        int st;
        bool hang = false;
        pid_t wr = waitpid(pids[w], &st, WNOHANG);
        if(wr < 0)
        {
          perror("waitpid");
          _exit(3);
        }
        if(wr == 0)
        {
          if(slots[w].total != last[w])
          {
            last[w] = slots[w].total;
            lastT[w] = elapsed();
            continue;
          }
          else if(elapsed() - lastT[w] > 60)
          {
            kill(pids[w], SIGKILL);
            waitpid(pids[w], &st, 0);
            hang = true;
          }
          else
            continue;
        }
        alive[w] = false;
        --nalive;
        if(hang || !WIFEXITED(st) || WEXITSTATUS(st) != 0)
        {
          V v;
          v.driver = di;
          for(int k = 0; k < slots[w].n && k < MAXC; ++k) v.choices.push_back(static_cast<int>(slots[w].choices[k]));
          v.r.kind = hang ? 3 : 2;
          v.r.key = hang ? "hang" : "crash";
          v.r.msg = slurp(tmp + "/stderr." + std::to_string(w)).substr(0, 4000);
          viols.push_back(v);
          stats[di].capped = true;
          continue;
        }
        std::ifstream i(tmp + "/stat." + std::to_string(w));
        uint64_t a, b, cks, pr, md, ns;
        int cap;
        i >> a >> b >> cks >> pr >> md >> cap >> ns;
        stats[di].execs += a;
        stats[di].trans += b;
        stats[di].checks += cks;
        stats[di].pruned += pr;
        stats[di].maxdepth = std::max(stats[di].maxdepth, static_cast<size_t>(md));
        stats[di].capped = stats[di].capped || cap;
        size_t nsmp;
        i >> nsmp;
        for(size_t k = 0; k < nsmp; ++k)
        {
          size_t n;
          i >> n;
          std::vector<int> chs(n);
          for(auto & v : chs) i >> v;
          i >> n;
          std::string l;
          std::getline(i, l);
          std::vector<std::string> tr(n);
          for(auto & t : tr) std::getline(i, t);
          if(w < 2) stats[di].samples.push_back({chs, tr});
        }
        std::string l;
        while(std::getline(i, l))
          if(l.rfind("K ", 0) == 0) knownHit.insert(l.substr(2));
        std::ifstream sf(tmp + "/states." + std::to_string(w), std::ios::binary);
        uint64_t h;
        while(sf.read(reinterpret_cast<char *>(&h), sizeof h)) all.insert(h);
        std::ifstream vf(tmp + "/viol." + std::to_string(w));
        size_t n;
        while(vf >> n)
        {
          V v;
          v.driver = di;
          v.choices.resize(n);
          for(auto & x : v.choices) vf >> x;
          std::string l2;
          std::getline(vf, l2);
          std::getline(vf, v.r.key);
          std::getline(vf, v.r.msg);
          v.r.kind = 1;
          viols.push_back(v);
        }
      }
    }
    stats[di].states = all.size();
    stats[di].wall = elapsed() - td;
  };
  for(size_t di = 0; di < drivers.size(); ++di)
    if(only.empty() || drivers[di].name == only) explore(di);

  // confirm, per driver, the shortest violation by replaying it in a fresh process
  auto sortV = [](std::vector<V> & vs) {
    std::sort(vs.begin(), vs.end(), [](const V & a, const V & b) {
      if(a.driver != b.driver) return a.driver < b.driver;
      if(a.choices.size() != b.choices.size()) return a.choices.size() < b.choices.size();
      return a.choices < b.choices;
    });
  };
  sortV(viols);
  auto found = viols;
  std::set<size_t> seen, doubtful;
  auto report = [&](const V & v, const Result & r, const std::string & how) {
    std::string rf = outdir + "/" + property + "-" + drivers[v.driver].name + ".replay";
    std::ofstream o(rf);
    o << "driver " << drivers[v.driver].name << "\n";
    o << "tier " << (thorough ? "thorough" : "quick") << "\n";
    o << "choices";
    for(int c : v.choices) o << " " << c;
    std::string m = r.msg;
    std::replace(m.begin(), m.end(), '\n', '\t');
    o << "\n# " << how << "\n# " << r.key << ": " << m << "\n";
    for(auto & t : r.trace) o << "# " << t << "\n";
    o.close();
    std::cout << "driver " << drivers[v.driver].name << " (" << how << "): " << r.key << ": " << r.msg.substr(0, 1500) << "\n";
    for(auto & t : r.trace) std::cout << "    " << t << "\n";
    std::cout << "VIOLATION property=" << property << " replay=" << rf << std::endl;
    ++alarms;
  };
  for(auto & v : found)
  {
    if(seen.count(v.driver)) continue;
    auto r1 = runForked(drivers[v.driver], thorough, v.choices, tmp, 120, true);
    auto r2 = runForked(drivers[v.driver], thorough, v.choices, tmp, 120, true);
    if(r1.kind == 0 || r2.kind == 0 || r1.kind != r2.kind || r1.key != r2.key)
    {
      doubtful.insert(v.driver);
      std::cout << "not reproduced alone: driver=" << drivers[v.driver].name << " " << v.r.key << " " << v.r.msg.substr(0, 300) << "\n";
      continue;
    }
    if(auto * k = isKnown(drivers[v.driver].name, r1.key, r1.msg))
    {
      knownHit.insert(k->text);
      continue;
    }
    seen.insert(v.driver);
    report(v, r1, "reproduced twice in a fresh process");
  }
  // A failure that needs the executions made before it in the same process: the whole exploration of the
  // driver is repeated, and it is reported if it fails again.
  for(auto di : doubtful)
  {
    if(seen.count(di)) continue;
    viols.clear();
    auto keep = stats[di];
    explore(di);
    stats[di] = keep;
    sortV(viols);
    if(viols.empty())
    {
      std::cout << "driver " << drivers[di].name << ": failure not reproduced, ignored\n";
      continue;
    }
    report(viols.front(), viols.front().r, "reproduced by a second complete exploration, not in isolation");
  }
  for(auto & k : knownHit) std::cout << "KNOWN-FINDING: property=" << property << " " << k << "\n";

  DStat tot;
  bool capped = false;
  for(size_t di = 0; di < drivers.size(); ++di)
  {
    auto & s = stats[di];
    tot.execs += s.execs;
    tot.trans += s.trans;
    tot.checks += s.checks;
    tot.states += s.states;
    capped = capped || s.capped;
    printf("%-28s executions=%llu transitions=%llu states=%llu checks=%llu pruned=%llu maxchoices=%zu %s %.1fs\n", drivers[di].name.c_str(),
           (unsigned long long)s.execs, (unsigned long long)s.trans, (unsigned long long)s.states, (unsigned long long)s.checks,
           (unsigned long long)s.pruned, s.maxdepth, s.capped ? "CAPPED" : "complete", s.wall);
  }
  printf("%s total: executions=%llu transitions=%llu states=%llu checks=%llu wall=%.1fs\n", property.c_str(), (unsigned long long)tot.execs,
         (unsigned long long)tot.trans, (unsigned long long)tot.states, (unsigned long long)tot.checks, elapsed());
  fflush(stdout);
  for(size_t di = 0; di < drivers.size(); ++di)
    if((only.empty() || drivers[di].name == only) && stats[di].execs == 0 && !alarms)
    {
      std::cout << "harness error: driver " << drivers[di].name << " executed nothing\n";
      return 3;
    }
  if(!evidence.empty())
  {
    std::ofstream o(evidence);
    const char * seed = getenv("VERIF_SEED");
    o << "{\"property\":" << jstr(property) << ",\"tier\":\"" << (thorough ? "thorough" : "quick") << "\",\"seed\":" << (seed ? atoi(seed) : 1)
      << ",\"level\":\"model_checking\",\"coverage\":{\"states\":" << tot.states << ",\"transitions\":" << tot.trans
      << ",\"traces_validated_against_impl\":" << tot.execs << ",\"oracle_comparisons\":" << tot.checks << ",\"exhaustive\":" << (capped ? "false" : "true")
      << ",\"rule\":" << jstr("every choice sequence of every driver is executed on the real code; states = distinct hashes of observed results; transitions = operations on the code under test; traces = complete executions compared with the reference model")
      << ",\"drivers\":[";
    for(size_t di = 0; di < drivers.size(); ++di)
    {
      auto & s = stats[di];
      o << (di ? "," : "") << "{\"name\":" << jstr(drivers[di].name) << ",\"what\":" << jstr(drivers[di].what) << ",\"executions\":" << s.execs
        << ",\"transitions\":" << s.trans << ",\"states\":" << s.states << ",\"checks\":" << s.checks << ",\"pruned\":" << s.pruned
        << ",\"max_choices\":" << s.maxdepth << ",\"completed\":" << (s.capped ? "false" : "true") << ",\"wall_s\":" << s.wall << "}";
    }
    o << "],\"samples\":[";
    bool first = true;
    for(size_t di = 0; di < drivers.size(); ++di)
    {
      int n = 0;
      // the last samples are the deepest executions
      for(auto it = stats[di].samples.rbegin(); it != stats[di].samples.rend() && n < 2; ++it, ++n)
      {
        o << (first ? "" : ",") << "{\"driver\":" << jstr(drivers[di].name) << ",\"choices\":[";
        for(size_t k = 0; k < it->first.size(); ++k) o << (k ? "," : "") << it->first[k];
        o << "],\"trace\":[";
        for(size_t k = 0; k < it->second.size(); ++k) o << (k ? "," : "") << jstr(it->second[k]);
        o << "]}";
        first = false;
      }
    }
    o << "]},\"assumptions\":[";
    for(size_t k = 0; k < assumptions.size(); ++k) o << (k ? "," : "") << jstr(assumptions[k]);
    o << "],\"wall_s\":" << elapsed() << ",\"violations\":" << alarms << "}\n";
  }
  std::string rm = "rm -rf '" + tmp + "'";
  if(system(rm.c_str()) != 0) std::cerr << "could not remove " << tmp << "\n";
  if(alarms) return 1;
  return 0;
}
} // namespace mc
