// Bounded exhaustive explorer ("stateless model checking by choice sequences").
// A driver is a deterministic function of the answers of Ctx::choose(); the explorer runs it for every
// possible answer sequence (depth first), in several worker processes that partition the choice tree.
#pragma once
#include <cstdint>
#include <cstring>
#include <functional>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace mc
{
struct Violation
{
  std::string key; // class of the failure (used to match known findings)
  std::string msg;
};
struct Prune
{};
struct SkipPrefix
{};

class Ctx
{
public:
  bool thorough = false;
  /** Nondeterministic choice in [0, n). */
  int choose(int n);
  bool flip() { return choose(2) == 1; }
  template<typename T>
  const T & pick(const std::vector<T> & v)
  { return v[static_cast<size_t>(choose(static_cast<int>(v.size())))]; }
  /** Record one transition (an operation on the real code) */
  void step(const std::string & s)
  {
    ++transitions;
    if(trace.size() < 200) trace.push_back(s);
  }
  /** Cheap variant: no description built unless we are tracing (replay, samples). */
  template<typename F, typename = decltype(std::declval<F>()())>
  void step(F && f)
  {
    ++transitions;
    if(tracing && trace.size() < 200) trace.push_back(f());
  }
  void note(const std::string & s)
  {
    if(tracing && trace.size() < 200) trace.push_back("  -- " + s);
  }
  /** Record an observed state. */
  void state(uint64_t h);
  /** Checked comparison with the model. */
  void check(bool ok, const char * key, const std::string & msg = "")
  {
    ++checks;
    if(!ok) throw Violation{key, msg};
  }
  template<typename F, typename = decltype(std::declval<F>()())>
  void check(bool ok, const char * key, F && f)
  {
    ++checks;
    if(!ok) throw Violation{key, f()};
  }
  [[noreturn]] void fail(const std::string & key, const std::string & msg) { throw Violation{key, msg}; }
  /** Abandon the current execution (not an error, e.g. equivalent to another one). */
  [[noreturn]] void prune() { throw Prune(); }

  // --- explorer side
  std::vector<int> choices, arity;
  size_t pos = 0;
  bool tracing = false;
  uint64_t transitions = 0, checks = 0;
  std::vector<std::string> trace;
  void * impl = nullptr;
};

struct Driver
{
  std::string name;
  std::string what; // bound and alphabet, in words
  std::function<void(Ctx &)> body;
  int splitDepth = 2;
};

/** FNV-1a style hashing helpers */
struct Hash
{
  uint64_t h = 1469598103934665603ull;
  Hash & bytes(const void * p, size_t n)
  {
    const unsigned char * c = static_cast<const unsigned char *>(p);
    for(size_t i = 0; i < n; ++i)
    {
      h ^= c[i];
      h *= 1099511628211ull;
    }
    return *this;
  }
  Hash & i(int64_t v) { return bytes(&v, sizeof v); }
  Hash & d(double v)
  {
    // rounded, so that states differing by rounding noise are the same
    int64_t r = (v > 1e12 || v < -1e12) ? (v > 0 ? INT64_MAX : INT64_MIN) : static_cast<int64_t>(v * 1e6 + (v >= 0 ? 0.5 : -0.5));
    return i(r);
  }
  Hash & s(const std::string & v)
  {
    i(static_cast<int64_t>(v.size()));
    return bytes(v.data(), v.size());
  }
  template<typename M>
  Hash & m(const M & M_)
  {
    i(M_.rows());
    i(M_.cols());
    for(int c = 0; c < M_.cols(); ++c)
      for(int r = 0; r < M_.rows(); ++r) d(M_(r, c));
    return *this;
  }
  operator uint64_t() const { return h; }
};

template<typename T>
inline std::string str(const T & t)
{
  std::ostringstream os;
  os << t;
  return os.str();
}
template<typename... Args>
inline std::string cat(const Args &... a)
{
  std::ostringstream os;
  ((os << a), ...);
  return os.str();
}

int run(int argc, char ** argv, const std::string & property, const std::vector<Driver> & drivers,
        const std::vector<std::string> & assumptions);
} // namespace mc
