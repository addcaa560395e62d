#include "mc.h"

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>

namespace mc {

namespace {

struct Shared {                            // survives a crash of the worker
  volatile uint64_t leaf;
  volatile int n;
  volatile int choices[4096];
  char harness[256];
  char description[8192];
};
Shared* g_shared = nullptr;
uint64_t g_leaf_seen = 0;
int g_ticks = 0;

long g_pages = 0;

// async-signal-safe
long resident_pages() {
  char buf[128];
  const int fd = open("/proc/self/statm", O_RDONLY);
  if (fd < 0) return 0;
  const ssize_t n = read(fd, buf, sizeof buf - 1);
  ::close(fd);
  long pages = 0;
  ssize_t i = 0;
  while (i < n && buf[i] != ' ') i++;      // total size
  for (i++; i < n && buf[i] >= '0' && buf[i] <= '9'; i++) pages = pages * 10 + (buf[i] - '0');
  return pages;
}

void on_cpu_timer(int) {
  if (g_shared == nullptr) return;
  if (g_shared->leaf != g_leaf_seen) {
    g_leaf_seen = g_shared->leaf;
    g_ticks = 0;
    g_pages = resident_pages();
  } else if (++g_ticks >= 120) {           // 120 cpu seconds in one scenario
    _exit(98);
  } else if (resident_pages() - g_pages > (2L << 30) / 4096) {
    _exit(97);                             // 2 GB in one scenario
  }
}

std::string join(const std::vector<int>& v) {
  std::string s;
  for (size_t i = 0; i < v.size(); i++)
    s += (i ? "," : "") + std::to_string(v[i]);
  return s;
}

}  // namespace

std::vector<Property>& registry() {
  static std::vector<Property> r;
  return r;
}

int Chooser::choose(int n) {
  if (n <= 0) throw SkipLeaf();
  const size_t depth = taken_.size();
  int c = 0;
  if (depth < prefix_.size()) {
    c = prefix_[depth];
    if (c >= n) {
      std::fprintf(stderr, "replay divergence: choice %d of %d\n", c, n);
      std::abort();
    }
  } else if (replay_) {
    c = 0;
  }
  taken_.push_back(c);
  widths_.push_back(n);
  if (g_shared != nullptr && depth < 4096) {
    g_shared->choices[depth] = c;
    g_shared->n = depth + 1;
  }
  return c;
}

void Chooser::shard() {
  if (replay_ || ctx_->nworkers == 1) return;
  uint64_t h = 1469598103934665603ULL;
  for (int c : taken_) h = hash_mix(h, c + 1);
  if (static_cast<int>(h % ctx_->nworkers) != ctx_->worker) throw SkipLeaf();
}

const char* const kStopped = "explorations stopped before their end";

// wall time of this process and the one it was forked from
double seconds_since_start() {
  static const auto t0 = std::chrono::steady_clock::now();
  return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
}

void Ctx::explore(const std::string& harness,
                  const std::function<void(Chooser&)>& body) {
  if (is_replay && harness != replay_harness) return;
  harness_current = harness;
  if (g_shared != nullptr) {
    std::strncpy(g_shared->harness, harness.c_str(), 255);
    g_shared->harness[255] = 0;
  }
  std::vector<int> prefix;
  if (is_replay) prefix = replay_choices;
  while (true) {
    Chooser ch;
    ch.ctx_ = this;
    ch.prefix_ = prefix;
    ch.replay_ = is_replay;
    chooser_current = &ch;
    if (g_shared != nullptr) {
      g_shared->leaf = g_shared->leaf + 1;
      g_shared->n = 0;
    }
    description.clear();
    try {
      body(ch);
      leaves++;
    } catch (const SkipLeaf&) {
    } catch (const FailedLeaf&) {
      leaves++;
    } catch (const std::exception& e) {
      try {
        fail("exception", std::string("unexpected exception: ") + e.what());
      } catch (const FailedLeaf&) {
      }
    }
    chooser_current = nullptr;
    if (is_replay) return;
    // advances to the next choice vector
    std::vector<int> t = ch.taken_;
    std::vector<int>& w = ch.widths_;
    while (!t.empty() && t.back() + 1 >= w[t.size() - 1]) t.pop_back();
    if (t.empty()) return;
    if (stop_after > 0 && seconds_since_start() > stop_after) {
      note(kStopped);
      return;
    }
    t.back()++;
    prefix = t;
  }
}

void Ctx::state(uint64_t h) {
  if (states.size() < 3000000) states.insert(h);
}
void Ctx::outcome(uint64_t h) {
  if (outcomes.size() < 3000000) outcomes.insert(h);
}
void Ctx::sample(const std::string& text) {
  // keeps a spread of the scenarios: the first one of each power of two
  if ((leaves & (leaves - 1)) == 0 && samples.size() < 24)
    samples.push_back(text);
}

void Ctx::fail(const std::string& key, const std::string& message) {
  if (violations_per_key[key]++ < 3 && violations.size() < 200) {
    Violation v;
    v.key = key;
    v.message = (description.empty() ? "" : "[" + description + "] ") + message;
    v.harness = harness_current;
    if (chooser_current != nullptr) v.choices = join(chooser_current->taken());
    violations.push_back(v);
  }
  throw FailedLeaf();
}

uint64_t hash_string(const std::string& s) {
  uint64_t h = 1469598103934665603ULL;
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ULL;
  return h;
}
uint64_t hash_double(double v) {
  if (std::isnan(v)) return 77;
  if (v == 0) v = 0;
  const float f = static_cast<float>(v);
  uint32_t b;
  std::memcpy(&b, &f, 4);
  return b;
}
uint64_t hash_vec(uint64_t h, const std::vector<double>& v) {
  for (double d : v) h = hash_mix(h, hash_double(d));
  return h;
}
bool close(const std::vector<double>& a, const std::vector<double>& b,
           double rel, double abs) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); i++)
    if (!close(a[i], b[i], rel, abs)) return false;
  return true;
}
std::string str(double v) {
  char b[40];
  std::snprintf(b, sizeof b, "%.12g", v);
  return b;
}
std::string str(const std::vector<double>& v) {
  std::string s = "(";
  for (size_t i = 0; i < v.size() && i < 12; i++) s += (i ? " " : "") + str(v[i]);
  if (v.size() > 12) s += " ... " + std::to_string(v.size()) + " values";
  return s + ")";
}

namespace {

std::string json(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c == '\t') o += "\\t";
    else if (c < 32 || c >= 127) { char b[8]; std::snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o + "\"";
}

void write_str(std::ostream& o, const std::string& s) {
  o << s.size() << '\n' << s << '\n';
}
std::string read_str(std::istream& i) {
  size_t n = 0;
  i >> n;
  i.get();
  std::string s(n, 0);
  i.read(&s[0], n);
  i.get();
  return s;
}

void save(const Ctx& c, const std::string& path) {
  std::ofstream o(path, std::ios::binary);
  o << c.transitions << ' ' << c.evaluations << ' ' << c.leaves << '\n';
  o << c.states.size() << ' ' << c.outcomes.size() << '\n';
  for (uint64_t h : c.states) o.write(reinterpret_cast<const char*>(&h), 8);
  for (uint64_t h : c.outcomes) o.write(reinterpret_cast<const char*>(&h), 8);
  o << '\n' << c.samples.size() << '\n';
  for (auto& s : c.samples) write_str(o, s);
  o << c.counters.size() << '\n';
  for (auto& s : c.counters) { write_str(o, s.first); o << s.second << '\n'; }
  o << c.violations.size() << '\n';
  for (auto& v : c.violations) {
    write_str(o, v.key); write_str(o, v.message);
    write_str(o, v.harness); write_str(o, v.choices);
  }
  o << "end\n";
}

bool load(Ctx& c, const std::string& path) {
  std::ifstream i(path, std::ios::binary);
  if (!i) return false;
  uint64_t a = 0, b = 0, d = 0, ns = 0, no = 0;
  i >> a >> b >> d >> ns >> no;
  i.get();
  c.transitions += a; c.evaluations += b; c.leaves += d;
  uint64_t h;
  for (uint64_t k = 0; k < ns; k++) { i.read(reinterpret_cast<char*>(&h), 8); c.states.insert(h); }
  for (uint64_t k = 0; k < no; k++) { i.read(reinterpret_cast<char*>(&h), 8); c.outcomes.insert(h); }
  size_t n = 0;
  i >> n; 
  for (size_t k = 0; k < n; k++) c.samples.push_back(read_str(i));
  i >> n;
  for (size_t k = 0; k < n; k++) { std::string s = read_str(i); uint64_t v; i >> v; c.counters[s] += v; }
  i >> n;
  for (size_t k = 0; k < n; k++) {
    Violation v;
    v.key = read_str(i); v.message = read_str(i);
    v.harness = read_str(i); v.choices = read_str(i);
    c.violations.push_back(v);
  }
  std::string end;
  i >> end;
  return end == "end";
}

// Known findings: "finding: property=<id> key=<key> | <description>".
std::map<std::string, std::string> known_findings(const std::string& path,
                                                  const std::string& id) {
  std::map<std::string, std::string> m;
  std::ifstream f(path);
  std::string line;
  const std::string head = "finding: property=" + id + " key=";
  while (std::getline(f, line)) {
    if (line.compare(0, head.size(), head) != 0) continue;
    const size_t bar = line.find(" | ");
    if (bar == std::string::npos) continue;
    m[line.substr(head.size(), bar - head.size())] = line.substr(bar + 3);
  }
  return m;
}

int run_worker(const Property& p, Ctx& ctx) {
  struct sigaction sa;
  std::memset(&sa, 0, sizeof sa);
  sa.sa_handler = on_cpu_timer;
  sa.sa_flags = SA_RESTART;
  sigaction(SIGVTALRM, &sa, nullptr);
  struct itimerval tv = {{1, 0}, {1, 0}};
  setitimer(ITIMER_VIRTUAL, &tv, nullptr);
  p.run(ctx);
  return 0;
}

Shared* make_shared_region() {
  void* m = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                 MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (m == MAP_FAILED) { std::perror("mmap"); std::exit(2); }
  std::memset(m, 0, sizeof(Shared));
  return static_cast<Shared*>(m);
}

}  // namespace

static void set_level(const Property& prop, const std::string& tier, Ctx* c) {
  c->level = tier == "thorough" || prop.is_cheap;
  c->thorough = c->level > 0;
}

int main_mc(int argc, char** argv) {
  std::string id, tier = "quick", root = ".", replay, scratch;
  int nworkers = 8;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto next = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--tier") tier = next();
    else if (a == "--root") root = next();
    else if (a == "--replay") replay = next();
    else if (a == "--workers") nworkers = std::atoi(next().c_str());
    else if (a == "--scratch") scratch = next();
    else id = a;
  }
  const Property* prop = nullptr;
  for (const Property& p : registry())
    if (id.empty() || p.id == id) { prop = &p; break; }
  if (prop == nullptr) { std::fprintf(stderr, "no property %s\n", id.c_str()); return 2; }
  id = prop->id;

  if (!replay.empty()) {                   // runs one recorded scenario
    std::ifstream f(replay);
    std::string line;
    Ctx c;
    c.property = id;
    c.is_replay = true;
    while (std::getline(f, line)) {
      if (line.compare(0, 9, "harness: ") == 0) c.replay_harness = line.substr(9);
      if (line.compare(0, 6, "tier: ") == 0) set_level(*prop, line.substr(6), &c);
      if (line.compare(0, 9, "choices: ") == 0) {
        std::istringstream s(line.substr(9));
        std::string t;
        while (std::getline(s, t, ',')) c.replay_choices.push_back(std::atoi(t.c_str()));
      }
    }
    prop->run(c);
    for (auto& v : c.violations)
      std::printf("REPRODUCED %s: %s\n", v.key.c_str(), v.message.c_str());
    if (c.violations.empty()) std::printf("not reproduced\n");
    return c.violations.empty() ? 0 : 1;
  }

  const auto t0 = std::chrono::steady_clock::now();
  const int main_pid = getpid();
  seconds_since_start();
  if (scratch.empty()) scratch = root + "/build/run";
  mkdir((root + "/build").c_str(), 0755);
  mkdir(scratch.c_str(), 0755);
  std::vector<pid_t> pids(nworkers);
  std::vector<Shared*> shared(nworkers);
  std::cout.flush();
  for (int w = 0; w < nworkers; w++) {
    shared[w] = make_shared_region();
    const std::string out = scratch + "/" + id + "." + std::to_string(main_pid) + "." +
                            std::to_string(w);
    unlink(out.c_str());
    pids[w] = fork();
    if (pids[w] == 0) {
      g_shared = shared[w];
      Ctx c;
      c.property = id;
      set_level(*prop, tier, &c);
      const char* limit = getenv("MC_STOP_AFTER");   // seconds
      c.stop_after = limit ? std::atof(limit) : tier == "thorough" ? 0 : 700;
      c.worker = w;
      c.nworkers = nworkers;
      run_worker(*prop, c);
      save(c, out);
      _exit(0);
    }
  }
  Ctx all;
  all.property = id;
  all.leaves = 0;
  bool infra_error = false;
  for (int w = 0; w < nworkers; w++) {
    int st = 0;
    waitpid(pids[w], &st, 0);
    const std::string out = scratch + "/" + id + "." + std::to_string(main_pid) + "." +
                            std::to_string(w);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
      // a lost result file says nothing about the code
      if (!load(all, out)) infra_error = true;
      unlink(out.c_str());
      continue;
    }
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) infra_error = true;
    Violation v;
    v.harness = shared[w]->harness;
    std::vector<int> c;
    for (int k = 0; k < shared[w]->n && k < 4096; k++) {
      const int x = shared[w]->choices[k];
      c.push_back(x);
    }
    v.choices = join(c);
    v.key = "crash:" + v.harness;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 98)
      v.message = "the code under test did not terminate (120 cpu seconds in one scenario)";
    else if (WIFEXITED(st) && WEXITSTATUS(st) == 97)
      v.message = "the code under test does not stop taking memory (2 GB in one scenario)";
    else
      v.message = "the code under test crashed or corrupted memory (wait status " +
                  std::to_string(st) + "; see stderr)";
    all.violations.push_back(v);
  }
  if (infra_error) { std::fprintf(stderr, "a worker was killed\n"); return 2; }

  // separates known findings from new violations
  auto known = known_findings(root + "/known_findings.txt", id);
  std::set<std::string> known_seen;
  std::vector<Violation> fresh;
  std::map<std::string, int> per_key;
  for (auto& v : all.violations) {
    if (known.count(v.key)) { known_seen.insert(v.key); continue; }
    if (per_key[v.key]++ < 2) fresh.push_back(v);
  }
  for (auto& k : known)
    if (known_seen.count(k.first))
      std::printf("KNOWN-FINDING: property=%s %s\n", id.c_str(), k.second.c_str());

  mkdir((root + "/replays").c_str(), 0755);
  int n = 0;
  for (auto& v : fresh) {
    if (n >= 10) break;
    const std::string path = root + "/replays/" + id + "-" + std::to_string(n++) + ".txt";
    std::ofstream o(path);
    o << "property: " << id << "\ntier: " << tier << "\nharness: " << v.harness
      << "\nchoices: " << v.choices << "\nkey: " << v.key
      << "\nmessage: " << v.message
      << "\nrun: ./check " << id << " --replay " << path << "\n";
    o.close();
    std::printf("  %s: %s\n", v.key.c_str(), v.message.c_str());
    std::printf("VIOLATION property=%s replay=%s\n", id.c_str(), path.c_str());
  }

  const double wall = std::chrono::duration<double>(
      std::chrono::steady_clock::now() - t0).count();
  mkdir((root + "/evidence").c_str(), 0755);
  const char* seed = std::getenv("VERIF_SEED");
  std::ofstream e(root + "/evidence/" + id + ".json");
  e << "{\n \"property\": " << json(id) << ",\n \"tier\": " << json(tier)
    << ",\n \"seed\": " << (seed && *seed ? std::atoi(seed) : 1)
    << ",\n \"level\": \"model_checking\",\n \"coverage\": {\n"
    << "  \"states\": " << all.states.size() << ",\n"
    << "  \"transitions\": " << all.transitions << ",\n"
    << "  \"traces_validated_against_impl\": " << all.leaves << ",\n"
    << "  \"evaluations\": " << all.evaluations << ",\n"
    << "  \"distinct_nontrivial\": " << all.outcomes.size() << ",\n"
    << "  \"rule\": " << json(prop->rule) << ",\n"
    << "  \"exhaustive\": " << (all.counters.count(kStopped) ? "false" : "true")
    << ",\n  \"detail\": {";
  bool first = true;
  for (auto& k : all.counters) {
    e << (first ? "\n" : ",\n") << "   " << json(k.first) << ": " << k.second;
    first = false;
  }
  e << "\n  },\n  \"samples\": [";
  first = true;
  size_t count = 0;
  for (auto& s : all.samples) {
    if (count++ % (all.samples.size() / 12 + 1)) continue;
    e << (first ? "\n" : ",\n") << "   " << json(s);
    first = false;
  }
  e << "\n  ]\n },\n \"assumptions\": [";
  first = true;
  for (auto& s : prop->assumptions) {
    e << (first ? "\n" : ",\n") << "  " << json(s);
    first = false;
  }
  e << "\n ],\n \"wall_s\": " << wall << ",\n \"violations\": " << fresh.size()
    << "\n}\n";
  e.close();
  std::printf("%s %s: states=%zu transitions=%llu executions=%llu evaluations=%llu "
              "distinct outcomes=%zu violations=%zu known=%zu wall=%.1fs\n",
              id.c_str(), tier.c_str(), all.states.size(),
              (unsigned long long)all.transitions, (unsigned long long)all.leaves,
              (unsigned long long)all.evaluations, all.outcomes.size(),
              fresh.size(), known_seen.size(), wall);
  if (all.counters.count(kStopped))
    std::printf("INCOMPLETE: the code under test is much slower than expected; the exploration "
                "was stopped\n");
  if (all.leaves == 0 && fresh.empty()) {
    std::fprintf(stderr, "nothing was explored\n");
    return 2;
  }
  return fresh.empty() ? 0 : 1;
}

}  // namespace mc

int main(int argc, char** argv) { return mc::main_mc(argc, argv); }
