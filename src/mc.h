// Bounded exhaustive explorer: every harness body is run once for every
// possible vector of choices, on the real code compiled from /repo.
#ifndef VERIF_MC_H_
#define VERIF_MC_H_

#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

namespace mc {

// A finer grid: the values, and n more between any two neighbours.
inline std::vector<double> refine(std::vector<double> v, int n) {
  std::vector<double> s = v;
  std::sort(s.begin(), s.end());
  for (size_t i = 1; i < s.size(); i++)
    for (int k = 1; k <= n; k++) v.push_back(s[i - 1] + (s[i] - s[i - 1]) * k / (n + 1));
  return v;
}

struct SkipLeaf {};      // scenario belongs to another worker / is infeasible
struct FailedLeaf {};    // a violation was recorded for the scenario

class Ctx;

// Hands out the choices of one execution.
class Chooser {
 public:
  // Picks one of 0..n-1. Every alternative is explored, in ascending order.
  int choose(int n);
  // Marks the point where the scenario is assigned to a worker. All choices
  // made so far form the shard key.
  void shard();
  const std::vector<int>& taken() const { return taken_; }

 private:
  friend class Ctx;
  Ctx* ctx_ = nullptr;
  std::vector<int> prefix_;
  std::vector<int> taken_;
  std::vector<int> widths_;
  bool replay_ = false;
};

struct Violation {
  std::string key;
  std::string message;
  std::string harness;
  std::string choices;
};

class Ctx {
 public:
  bool thorough = false;                   // the finer grid
  int level = 0;                           // 0, 1 (thorough)
  double stop_after = 0;                   // seconds of wall time, 0: never
  int worker = 0;
  int nworkers = 1;
  std::string property;

  // Enumerates all executions of the body.
  void explore(const std::string& harness,
               const std::function<void(Chooser&)>& body);

  // Bookkeeping -------------------------------------------------------------
  void state(uint64_t hash);               // a distinct observed state
  void transition(uint64_t n = 1) { transitions += n; }
  void eval(uint64_t n = 1) { evaluations += n; }
  void outcome(uint64_t hash);             // a distinct, non trivial outcome
  void sample(const std::string& text);    // written to the evidence file
  void note(const std::string& name, uint64_t n = 1) { counters[name] += n; }
  // Describes the current scenario (shown in violation reports).
  void describe(const std::string& text) { description = text; }

  // Records a violation and abandons the scenario.
  [[noreturn]] void fail(const std::string& key, const std::string& message);

  // internals ---------------------------------------------------------------
  uint64_t transitions = 0;
  uint64_t evaluations = 0;
  uint64_t leaves = 0;
  std::unordered_set<uint64_t> states;
  std::unordered_set<uint64_t> outcomes;
  std::vector<std::string> samples;
  std::map<std::string, uint64_t> counters;
  std::vector<Violation> violations;
  std::map<std::string, int> violations_per_key;
  std::string description;
  std::string harness_current;
  const Chooser* chooser_current = nullptr;
  std::string replay_harness;
  std::vector<int> replay_choices;
  bool is_replay = false;
};

// The key and message are only built when the condition is false.
#define MC_CHECK(ctx, ok, key, ...) \
  do { if (!(ok)) (ctx).fail((key), mc::cat(__VA_ARGS__)); } while (0)

// hashing ---------------------------------------------------------------------
inline uint64_t hash_mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdULL;
  h ^= h >> 32;
  return h;
}
uint64_t hash_double(double v);            // to 6 significant digits
uint64_t hash_string(const std::string& s);
uint64_t hash_vec(uint64_t h, const std::vector<double>& v);

// numeric comparison ------------------------------------------------------------
inline bool close(double a, double b, double rel, double abs = 0) {
  if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
  if (a == b) return true;
  if (std::isinf(a) || std::isinf(b)) return false;
  const double m = std::fmax(std::fabs(a), std::fabs(b));
  return std::fabs(a - b) <= abs + rel * m;
}
bool close(const std::vector<double>& a, const std::vector<double>& b,
           double rel, double abs = 0);

// formatting --------------------------------------------------------------------
std::string str(double v);
std::string str(const std::vector<double>& v);
inline void fmt_into(std::ostringstream&) {}
inline void fmt_one(std::ostringstream& s, double v) { s << str(v); }
inline void fmt_one(std::ostringstream& s, const std::vector<double>& v) {
  s << str(v);
}
template <class T> void fmt_one(std::ostringstream& s, const T& v) { s << v; }
template <class T, class... R>
void fmt_into(std::ostringstream& s, const T& v, const R&... r) {
  fmt_one(s, v);
  fmt_into(s, r...);
}
template <class... A> std::string cat(const A&... a) {
  std::ostringstream s;
  fmt_into(s, a...);
  return s.str();
}

// registration ------------------------------------------------------------------
struct Property {
  std::string id;
  std::function<void(Ctx&)> run;
  std::string rule;                        // how cases are made
  std::vector<std::string> assumptions;
  bool is_cheap = false;                   // quick explores the finer grid too
};
std::vector<Property>& registry();
struct Register {
  Register(const Property& p) { registry().push_back(p); }
};

// histories of one object ---------------------------------------------------------
// A spec lists the inputs of a class (each with a small menu of values) and
// its queries. Every sequence of set/query operations up to a depth is run on
// one object; each query answer is compared with the answer of an object that
// was freshly built from the inputs in force at that moment.
template <class T> struct HistSpec {
  struct Choice {
    std::string name;
    std::function<void(T&)> apply;
  };
  struct Input {
    std::string name;
    std::vector<Choice> choices;
  };
  struct Query {
    std::string name;
    std::function<std::vector<double>(const T&)> get;
  };
  std::string name;
  std::function<void(T&)> init;            // optional, applied to every object
  std::vector<Input> inputs;
  std::vector<Query> queries;
  // inputs that can be changed a little: the function is given a factor
  struct Near {
    std::string name;
    std::function<void(T&, double)> apply;
  };
  std::vector<Near> near;
  std::vector<double> factors{1 + 1e-4, 1 - 1e-4, 1 + 1e-6, 1 + 1e-2};
  bool with_copy = false;                  // also continue on a copy
  double rel = 1e-9;
  double abs = 1e-12;
};

template <class T>
void explore_histories(Ctx& ctx, const HistSpec<T>& spec, int depth) {
  struct Op { int kind, a, b; };           // 0 set, 1 query, 2.. copies
  std::vector<Op> ops;
  for (size_t q = 0; q < spec.queries.size(); q++)
    ops.push_back({1, static_cast<int>(q), 0});
  const int nq = ops.size();
  for (size_t i = 0; i < spec.inputs.size(); i++)
    for (size_t c = 0; c < spec.inputs[i].choices.size(); c++)
      ops.push_back({0, static_cast<int>(i), static_cast<int>(c)});
  // continue on a copy; continue on a used object that is assigned to;
  // edit and query a copy that is then thrown away
  if (spec.with_copy)
    for (int i : {2, 4, 3, 3, 3})
      ops.push_back({i, ops.back().kind == 3 ? ops.back().a + 1 : 0, 0});
  std::map<std::pair<std::vector<int>, int>, std::vector<double>> memo;

  auto expected = [&](const std::vector<int>& in, int q)
      -> const std::vector<double>& {
    auto key = std::make_pair(in, q);
    auto it = memo.find(key);
    if (it != memo.end()) return it->second;
    std::vector<double> v;
    {
      T fresh;
      if (spec.init) spec.init(fresh);
      for (size_t i = 0; i < in.size(); i++)
        spec.inputs[i].choices[in[i]].apply(fresh);
      v = spec.queries[q].get(fresh);
    }
    uint64_t h = hash_string(spec.name + spec.queries[q].name);
    ctx.outcome(hash_vec(h, v));
    return memo.emplace(key, v).first->second;
  };

  // for whoever adds a history: how much do the answers differ?
  if (getenv("MC_AUDIT")) {
    for (size_t q = 0; q < spec.queries.size(); q++) {
      std::map<std::vector<double>, int> answers;
      for (size_t i = 0; i < spec.inputs.size(); i++)
        for (size_t c = 0; c < spec.inputs[i].choices.size(); c++) {
          std::vector<int> in(spec.inputs.size(), 0);
          in[i] = c;
          answers[expected(in, q)]++;
        }
      fprintf(stderr, "AUDIT %s %s: %zu different answers, first %s\n", spec.name.c_str(),
              spec.queries[q].name.c_str(), answers.size(), cat(answers.begin()->first).c_str());
    }
    return;
  }

  ctx.explore("history:" + spec.name, [&](Chooser& ch) {
    std::vector<int> in(spec.inputs.size(), 0);
    T* obj = new T();
    struct Guard { T*& p; ~Guard() { delete p; } } guard{obj};
    if (spec.init) spec.init(*obj);
    for (size_t i = 0; i < in.size(); i++) spec.inputs[i].choices[0].apply(*obj);
    std::string history;
    uint64_t hstate = hash_string(spec.name);
    for (int d = 0; d < depth; d++) {
      const bool last = d == depth - 1;
      const int k = ch.choose(last ? nq : static_cast<int>(ops.size()));
      if (d == (depth >= 2 ? 1 : 0)) ch.shard();
      const Op& op = ops[k];
      if (op.kind == 0) {
        if (in[op.a] == op.b) throw SkipLeaf();   // unchanged input
        history += "set " + spec.inputs[op.a].name + "=" +
                   spec.inputs[op.a].choices[op.b].name + "; ";
        ctx.describe(history);
        in[op.a] = op.b;
        spec.inputs[op.a].choices[op.b].apply(*obj);
      } else if (op.kind == 2) {
        history += "continue on a copy; ";
        ctx.describe(history);
        T* copy = new T(*obj);
        T* old = obj;
        obj = copy;
        delete old;
      } else if (op.kind == 3 || op.kind == 4) {
        T* other = op.kind == 3 ? new T() : new T(*obj);
        Guard guard_other{other};
        if (op.kind == 3 && spec.init) spec.init(*other);
        // the used object had the last, the first, or a middle choice
        for (size_t i = 0; i < in.size(); i++) {
          const auto& c = spec.inputs[i].choices;
          c[op.a == 0 ? c.size() - 1 : op.a == 1 ? 0 : c.size() / 2].apply(*other);
        }
        for (size_t q = 0; q < spec.queries.size(); q++)
          spec.queries[q].get(*other);
        if (op.kind == 3) {
          history += cat("continue on an assigned object ", op.a, "; ");
          ctx.describe(history);
          *other = *obj;
          std::swap(obj, other);
        } else {
          history += "edit a copy; ";
          ctx.describe(history);
        }
      } else {
        history += "query " + spec.queries[op.a].name + "; ";
        ctx.describe(history);
        const std::vector<double> got = spec.queries[op.a].get(*obj);
        const std::vector<double>& want = expected(in, op.a);
        ctx.eval();
        if (!close(got, want, spec.rel, spec.abs))
          ctx.fail(spec.name + ":" + spec.queries[op.a].name,
                   cat("after this history the answer is ", got,
                       " but a fresh object with the same inputs answers ",
                       want));
      }
      ctx.transition();
      hstate = hash_mix(hstate, k + 1);
      ctx.state(hstate);
    }
    ctx.sample(spec.name + ": " + history);
  });
  // the order in which the inputs are given for the first time, with a look at
  // the incomplete object after any of them
  int nv = -1;
  for (size_t q = 0; q < spec.queries.size(); q++)
    if (spec.queries[q].name == "Validate") nv = q;
  const size_t n = spec.inputs.size();
  std::vector<std::vector<int>> orders;
  std::vector<int> order(n);
  for (size_t i = 0; i < n; i++) order[i] = i;
  if (n <= 4) {
    do orders.push_back(order); while (std::next_permutation(order.begin(), order.end()));
  } else {
    for (int k = 0; k < 2; k++) {
      for (size_t i = 0; i < n; i++) {
        orders.push_back(order);
        std::rotate(order.begin(), order.begin() + 1, order.end());
      }
      std::reverse(order.begin(), order.end());
    }
  }
  ctx.explore("order:" + spec.name, [&](Chooser& ch) {
    const std::vector<int>& o = orders[ch.choose(static_cast<int>(orders.size()))];
    ch.shard();
    const bool last = ch.choose(2) == 1;     // the first or the last choices
    const int looks = nv < 0 ? 0 : ch.choose(1 << n);
    std::vector<int> in(n, 0);
    T obj;
    if (spec.init) spec.init(obj);
    std::string history;
    for (size_t k = 0; k < n; k++) {
      const auto& input = spec.inputs[o[k]];
      in[o[k]] = last ? static_cast<int>(input.choices.size()) - 1 : 0;
      history += "set " + input.name + "=" + input.choices[in[o[k]]].name + "; ";
      ctx.describe(history);
      input.choices[in[o[k]]].apply(obj);
      if (looks >> k & 1) {
        history += "query Validate; ";
        ctx.describe(history);
        spec.queries[nv].get(obj);
      }
    }
    const int q = ch.choose(nq);
    history += "query " + spec.queries[q].name + "; ";
    ctx.describe(history);
    const std::vector<double> got = spec.queries[q].get(obj);
    const std::vector<double>& want = expected(in, q);
    ctx.eval();
    if (!close(got, want, spec.rel, spec.abs))
      ctx.fail(spec.name + ":order:" + spec.queries[q].name,
               cat("after this history the answer is ", got,
                   " but a fresh object with the same inputs answers ", want));
    ctx.transition();
    ctx.state(hash_string(history));
  });
  // a small change of one input, once or twice, between any two queries
  if (!spec.near.empty()) {
    const int nn = spec.near.size();
    const int nf = spec.factors.size();
    std::map<std::vector<double>, std::vector<double>> cache;
    const auto fresh = [&](int m, int n, double f, int q) {
      auto& e = cache[{double(m), double(n), f, double(q)}];
      if (e.empty()) {
        T obj;
        if (spec.init) spec.init(obj);
        for (auto& i : spec.inputs) i.choices[0].apply(obj);
        if (m != n) spec.near[m].apply(obj, 1);
        spec.near[n].apply(obj, f);
        e = spec.queries[q].get(obj);
        e.push_back(0);
      }
      return std::vector<double>(e.begin(), e.end() - 1);
    };
    if (getenv("MC_AUDIT_NEAR"))
      for (int n = 0; n < nn; n++)
        for (int k = 0; k < nf; k++) {
          int seen = 0;
          for (int q = 0; q < nq; q++)
            seen += !close(fresh(n, n, 1, q), fresh(n, n, spec.factors[k], q), 3 * spec.rel, 3 * spec.abs);
          fprintf(stderr, "NEAR %s %s %g: %d queries see it\n", spec.name.c_str(),
                  spec.near[n].name.c_str(), spec.factors[k] - 1, seen);
        }
    ctx.explore("small change:" + spec.name, [&](Chooser& ch) {
      const int n = ch.choose(nn);
      const int q = ch.choose(nq);
      ch.shard();
      T obj;
      if (spec.init) spec.init(obj);
      for (auto& i : spec.inputs) i.choices[0].apply(obj);
      spec.near[n].apply(obj, 1);
      spec.queries[q].get(obj);
      std::string history = "query " + spec.queries[q].name;
      const int m = ch.choose(nn);
      const double f = spec.factors[ch.choose(nf)];
      if (m != n) spec.near[m].apply(obj, 1);
      spec.near[m].apply(obj, f);
      history += cat("; change ", spec.near[m].name, " by ", f - 1);
      // with another input that has been set anew, the answer is that of both
      if (m != n) {
        spec.queries[q].get(obj);
        spec.near[m].apply(obj, 1);
        spec.near[n].apply(obj, f);
        history += cat("; query; change it back, and ", spec.near[n].name, " by ", f - 1);
      }
      const int r = ch.choose(nq);
      history += "; query " + spec.queries[r].name;
      ctx.describe(history);
      const std::vector<double> got = spec.queries[r].get(obj);
      const std::vector<double> want = fresh(m, n, f, r);
      ctx.eval();
      if (!close(got, want, spec.rel, spec.abs))
        ctx.fail(spec.name + ":near:" + spec.queries[r].name,
                 cat("after this history the answer is ", got,
                     " but a fresh object with the same inputs answers ", want));
      ctx.transition();
      ctx.state(hash_string(history));
    });
  }
  ctx.note("histories of " + spec.name + " to depth " + std::to_string(depth) +
           " (alphabet " + std::to_string(ops.size()) + ")", 0);
}

}  // namespace mc

#endif  // VERIF_MC_H_
