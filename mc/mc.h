// A small stateless model checker for sequential code: a body asks choose(n) for every nondeterministic
// decision and is executed once for every choice vector (depth-first odometer). Leaves run in forked workers;
// any check failure, unexpected assertion report, exception, signal, sanitizer report or hang is a violation
// whose counterexample is the choice vector. Nothing is sampled.
#pragma once
#ifndef MC_RESERVED  // address space a harness reserves without using it
#define MC_RESERVED 0ul
#endif
#include <cerrno>
#include <climits>
#include <csignal>
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <algorithm>
#include <exception>
#include <new>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_map>
#include <vector>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define MC_HAS_ASAN 1
#endif
#endif
#ifndef MC_HAS_ASAN
#define MC_HAS_ASAN 0
#endif

namespace mc {

struct violation : std::exception {
  std::string msg;
  explicit violation(std::string m) : msg(std::move(m)) {}
  const char* what() const noexcept override { return msg.c_str(); }
};
struct assert_report : std::exception {
  std::string msg;
  explicit assert_report(std::string m) : msg(std::move(m)) {}
  const char* what() const noexcept override { return msg.c_str(); }
};

constexpr int MAXPATH = 96;
struct shared {
  volatile int suite;
  volatile int depth;
  volatile int path[MAXPATH];
  volatile int status;  // 0 running, 1 done, 2 violation
  volatile long cases;
  char msg[2048];
  char desc[12000];
};
inline shared*& shm() { static shared* s = nullptr; return s; }
inline int& expecting_assert() { static int n = 0; return n; }
inline bool& verbose() { static bool v = false; return v; }
inline int& tier_() { static int t = 0; return t; }
inline bool thorough() { return tier_() == 1; }

inline void set_msg(const std::string& m) {
  if (shm() && !shm()->msg[0]) {
    strncpy(shm()->msg, m.c_str(), sizeof(shm()->msg) - 1);
  }
}
inline std::string vfmt(const char* f, va_list ap) {
  char b[1500];
  vsnprintf(b, sizeof b, f, ap);
  return b;
}
// A failure noticed where throwing is not possible (destructors): recorded, reported at the end of the case.
inline std::string& soft() { static std::string s; return s; }
__attribute__((format(printf, 1, 2))) inline void soft_fail(const char* f, ...) {
  va_list ap; va_start(ap, f); std::string m = vfmt(f, ap); va_end(ap);
  if (soft().empty()) soft() = m;
}
[[noreturn]] __attribute__((format(printf, 1, 2))) inline void fail(const char* f, ...) {
  va_list ap; va_start(ap, f); std::string m = vfmt(f, ap); va_end(ap);
  set_msg(m);
  throw violation(m);
}
#define MC_CHECK(cond, ...) do { if (!(cond)) ::mc::fail(__VA_ARGS__); } while (0)

#ifdef NDEBUG
#define MC_ASSERTS 0
#else
#define MC_ASSERTS 1
[[noreturn]] inline __attribute__((noinline)) void on_assert(const char* expr, const char* file, int line) {
  const char* base = strrchr(file, '/');
  std::string m = std::string("assertion report: ") + expr + " (" + (base ? base + 1 : file) + ":" + std::to_string(line) + ")";
  if (expecting_assert() > 0) throw assert_report(m);
  set_msg(m);
  throw violation(m);
}
#endif
// Runs f; true if it was rejected by an assertion report.
template <class F> bool rejected(F&& f) {
  struct scope { scope() { ++expecting_assert(); } ~scope() { --expecting_assert(); } };
  try { scope s; f(); return false; } catch (const assert_report&) { return true; }
}

struct discarded {};
class ctx {
 public:
  std::vector<int> path, width;
  size_t pos = 0;
  bool replaying = false;
  int shard = 0, shards = 1;
  long shard_counter = 0;
  bool nontriv = false, skipped = false, shared_out = false;
  uint64_t digest = 0;
  std::string desc;

  int choose(int n) {
    if (n <= 0) { fprintf(stderr, "choose(%d)\n", n); abort(); }
    if (pos < path.size()) {
      if (!replaying && width[pos] != n) { set_msg("explorer: nondeterministic choice width"); abort(); }
      if (path[pos] >= n) { set_msg("explorer: replayed choice out of range"); abort(); }
    } else {
      if (path.size() >= (size_t)MAXPATH) { fprintf(stderr, "path too long\n"); abort(); }
      path.push_back(0); width.push_back(n);
      shm()->path[pos] = 0;
    }
    int r = path[pos];
    if (width.size() <= pos) width.push_back(n);
    shm()->path[pos] = r;
    pos++;
    shm()->depth = (int)pos;
    return r;
  }
  template <class T> const T& pick(const std::vector<T>& v) { return v[choose((int)v.size())]; }
  template <class T> T pick(std::initializer_list<T> v) { return *(v.begin() + choose((int)v.size())); }
  int range(int lo, int hi) { return lo + choose(hi - lo + 1); }  // inclusive
  bool flip() { return choose(2) == 1; }
  // Work sharing between workers: true if the subtree below this point belongs to this worker.
  bool mine() {
    shared_out = true;
    if (replaying || !fresh()) return true;  // inside a subtree that was already found to be ours
    if ((shard_counter++ % shards) == shard) return true;
    skipped = true;
    return false;
  }
  // State caching for history exploration: call after each completed operation with the canonical state.
  // True if this state was already expanded with at least `remaining` operations left (prune then).
  long fresh_from = -1;
  std::unordered_map<uint64_t, int> cache;
  bool seen(uint64_t state, int remaining) {
    if (replaying) return false;
    if (!fresh()) return false;  // on the replayed prefix: being expanded right now
    auto it = cache.find(state);
    if (it == cache.end()) { cache.emplace(state, remaining); return false; }
    if (it->second >= remaining) return true;
    it->second = remaining;
    return false;
  }
  bool fresh() const { return replaying || (long)pos > fresh_from; }
  void check_soft() { if (!soft().empty()) fail("%s", soft().c_str()); }
  void nontrivial() { nontriv = true; }
  [[noreturn]] void discard() { skipped = true; throw discarded(); }  // same, and ends the case
  void skip() { skipped = true; }  // not a case (outside the stated precondition): not counted
  void obs(uint64_t v) { digest = (digest ^ (v + 0x9e3779b97f4a7c15ull + (digest << 6) + (digest >> 2))) * 0xff51afd7ed558ccdull; }
  __attribute__((format(printf, 2, 3))) void note(const char* f, ...) {
    if (!verbose()) return;
    va_list ap; va_start(ap, f); std::string m = vfmt(f, ap); va_end(ap);
    if (!desc.empty()) desc += "; ";
    desc += m;
    strncpy(shm()->desc, desc.c_str(), sizeof(shm()->desc) - 1);
  }
};

struct suite {
  std::string name;
  std::function<void(ctx&)> body;
  std::string kind;  // "explore"
};
inline std::vector<suite>& suites() { static std::vector<suite> s; return s; }
struct registrar {
  registrar(const std::string& n, std::function<void(ctx&)> f) { suites().push_back({n, f, "explore"}); }
};
#define MC_CAT2(a, b) a##b
#define MC_CAT(a, b) MC_CAT2(a, b)
#define MC_SUITE(name) \
  static void MC_CAT(mc_body_, __LINE__)(::mc::ctx&); \
  static ::mc::registrar MC_CAT(mc_reg_, __LINE__)(name, MC_CAT(mc_body_, __LINE__)); \
  static void MC_CAT(mc_body_, __LINE__)(::mc::ctx& c)

// Extra counters a body may add to (states, transitions, ...), summed over workers.
enum { CNT = 8 };
inline long* counters() { static long c[CNT]; return c; }
inline const char** counter_names() { static const char* n[CNT]; return n; }
inline void count(int i, const char* name, long d = 1) { counter_names()[i] = name; counters()[i] += d; }

struct suite_stats {
  long evals = 0, nontrivial = 0, distinct = 0, pruned = 0;
  long cnt[CNT] = {0};
  std::vector<uint64_t> digests;
  std::vector<std::string> samples;
  double wall = 0;
};

inline int& case_seconds() { static int s = 20; return s; }
inline void arm(int seconds) {
  struct itimerval it = {{0, 0}, {seconds, 0}};
  setitimer(ITIMER_PROF, &it, nullptr);
}

inline std::string path_str(const std::vector<int>& p) {
  std::string s;
  for (size_t i = 0; i < p.size(); i++) s += (i ? "," : "") + std::to_string(p[i]);
  return s;
}

// Executes one leaf. Throws nothing; returns empty string or the violation text.
#ifdef MC_RESERVED
// Harnesses on sparse memory: code that writes far more of it than there are elements must not exhaust the machine.
// For views that is a violation (they only have their elements); memory of an array may be written as a whole, then the unit gives up (exit 77).
constexpr long FLOOD_MB = 384;
inline bool& flood_is_violation() { static bool b = true; return b; }
inline void on_flood_timer(int) {
  static char b[64]; int fd = open("/proc/self/statm", O_RDONLY); if (fd < 0) return;
  ssize_t n = read(fd, b, sizeof b - 1); close(fd); if (n <= 0) return; b[n] = 0;
  const char* p = b; while (*p && *p != ' ') p++;
  if (atol(p) / 256 < FLOOD_MB) return;
  if (!flood_is_violation()) _exit(77);
  if (shm()) { static const char m[] = "hundreds of megabytes are written for a few elements"; memcpy((void*)shm()->msg, m, sizeof m); }
  _exit(3);
}
inline void watch_flood() {
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_flood_timer; sa.sa_flags = SA_RESTART; sigaction(SIGALRM, &sa, nullptr);
  struct itimerval t = {{0, 10000}, {0, 10000}}; setitimer(ITIMER_REAL, &t, nullptr);
}
#else
inline void watch_flood() {}
#endif
inline std::string run_leaf(const suite& s, ctx& c) {
  c.pos = 0; c.nontriv = false; c.skipped = false; c.shared_out = false; c.digest = 0; c.desc.clear();
  soft().clear(); expecting_assert() = 0;
  shm()->msg[0] = 0; shm()->depth = 0;
  try {
    s.body(c);
  } catch (const discarded&) {
    return "";
  } catch (const violation& v) {
    return v.msg.empty() ? "violation" : v.msg;
  } catch (const assert_report& a) {
    return "assertion report outside its scope: " + a.msg;
  } catch (const std::bad_alloc&) {
    return "unexpected std::bad_alloc";
  } catch (const std::exception& e) {
    return std::string("unexpected exception: ") + e.what();
  }
  if (!soft().empty()) return soft();
  return "";
}

inline bool& want_samples() { static bool b = true; return b; }

// where to list every leaf with the digest of its observations
inline std::string& dump_file() { static std::string f; return f; }

inline suite_stats run_suite(const suite& s, int shard, int shards) {
  suite_stats st;
  ctx c; c.shard = shard; c.shards = shards;
  FILE* dump = dump_file().empty() ? nullptr : fopen(dump_file().c_str(), "a");
  for (;;) {
    if ((shm()->cases++ & 255) == 0) arm(case_seconds());
    bool sample = shard == 0 && want_samples() && (st.evals == 0 || (st.evals < 4000 && (st.evals & (st.evals - 1)) == 0)) && st.samples.size() < 12;
    if (sample) verbose() = true;
    c.fresh_from = (long)c.path.size() - 1;
    std::string err = run_leaf(s, c);
    if (sample) {
      verbose() = false;
      if (!c.desc.empty() && c.nontriv && st.samples.size() < 3) st.samples.push_back(c.desc);
    }
    if (!err.empty()) {
      set_msg(err);
      if (shm()->msg[0] == 0) strcpy(shm()->msg, "violation");
      shm()->status = 2;
      _exit(3);
    }
    if (!c.skipped && (c.shared_out || shard == 0)) {
      if (dump) { for (size_t k = 0; k < c.pos; k++) fprintf(dump, k ? ",%d" : "%d", c.path[k]); fprintf(dump, " %llu\n", (unsigned long long)c.digest); }
      if (c.nontriv) { st.nontrivial++; if (c.cache.empty()) st.digests.push_back(c.digest); }
      st.evals++;
    }
    if (st.digests.size() > 4000000) {
      std::sort(st.digests.begin(), st.digests.end());
      st.digests.erase(std::unique(st.digests.begin(), st.digests.end()), st.digests.end());
    }
    // Next choice vector.
    c.path.resize(c.pos); c.width.resize(c.pos);
    while (!c.path.empty() && c.path.back() + 1 >= c.width.back()) { c.path.pop_back(); c.width.pop_back(); }
    if (c.path.empty()) break;
    c.path.back()++;
  }
  if (dump) fclose(dump);
  for (auto& kv : c.cache) st.digests.push_back(kv.first);
  std::sort(st.digests.begin(), st.digests.end());
  st.digests.erase(std::unique(st.digests.begin(), st.digests.end()), st.digests.end());
  st.distinct = (long)st.digests.size();
  for (int i = 0; i < CNT; i++) { st.cnt[i] = counters()[i]; counters()[i] = 0; }
  return st;
}

inline std::string jesc(const std::string& s) {
  std::string o;
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
    else if (ch == '\n') o += "\\n";
    else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); o += b; }
    else o += ch;
  }
  return o;
}

inline double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

inline shared* new_shared() {
  void* p = mmap(nullptr, sizeof(shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  memset(p, 0, sizeof(shared));
  return (shared*)p;
}

inline void redirect_stderr(const std::string& file) {
  int fd = open(file.c_str(), O_CREAT | O_WRONLY | O_TRUNC | O_APPEND, 0644);
  if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); close(fd); }
}
inline std::string tail_of(const std::string& file, size_t max = 1500) {
  std::string s; FILE* f = fopen(file.c_str(), "r"); if (!f) return s;
  char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0 && s.size() < 200000) s.append(b, n);
  fclose(f);
  size_t p = s.find("ERROR: AddressSanitizer");
  if (p != std::string::npos) s = s.substr(p);
  if (s.size() > max) s = s.substr(0, max);
  return s;
}
inline void limit_stderr() {  // the code under test prints before asserting; keep that bounded
  struct rlimit r = {64u << 20, 64u << 20}; setrlimit(RLIMIT_FSIZE, &r); signal(SIGXFSZ, SIG_IGN);
}

// Re-runs one leaf in a fresh process. Returns "" if it passes, else the violation text.
inline std::string replay_once(int suite_index, const std::vector<int>& path, const std::string& tmp, std::string* desc, int limit) {
  shared* sh = new_shared();
  std::string errf = tmp + "/replay.err";
  fflush(nullptr);
  pid_t p = fork();
  if (p == 0) {
    shm() = sh; limit_stderr(); redirect_stderr(errf);
    verbose() = true;
    arm(limit); watch_flood();
    ctx c; c.replaying = true; c.path = path; c.width.clear();
    std::string err = run_leaf(suites()[suite_index], c);
    if (!err.empty()) { set_msg(err); _exit(3); }
    _exit(0);
  }
  int st = 0; waitpid(p, &st, 0);
  std::string r;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) r = "";
  else if (WIFEXITED(st) && WEXITSTATUS(st) == 3) r = sh->msg[0] ? sh->msg : "violation";
  else {
    r = WIFSIGNALED(st) ? (WTERMSIG(st) == SIGPROF ? "hang: the case did not finish" : std::string("killed by signal ") + strsignal(WTERMSIG(st)))
                        : "exit status " + std::to_string(WEXITSTATUS(st));
    if (sh->msg[0]) r += std::string("; ") + sh->msg;
    std::string t = tail_of(errf); if (!t.empty()) r += "; " + t;
  }
  if (desc) { *desc = sh->desc; }
  munmap(sh, sizeof(shared));
  return r;
}

inline int main_(int argc, char** argv) {
  int jobs = 8; std::string out, tmp, replay, only;
  bool list = false;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto next = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--jobs") jobs = atoi(next().c_str());
    else if (a == "--out") out = next();
    else if (a == "--tmp") tmp = next();
    else if (a == "--tier") tier_() = next() == "thorough";
    else if (a == "--replay") replay = next();  // "suite name|1,2,3"
    else if (a == "--only") only = next();
    else if (a == "--dump") dump_file() = next();
    else if (a == "--list") list = true;
    else if (a == "--case-seconds") case_seconds() = atoi(next().c_str());
  }
  std::sort(suites().begin(), suites().end(), [](const suite& a, const suite& b) { return a.name < b.name; });
  for (size_t i = 1; i < suites().size(); i++)
    if (suites()[i].name == suites()[i - 1].name) { fprintf(stderr, "duplicate suite %s\n", suites()[i].name.c_str()); return 2; }
  if (list) { for (auto& s : suites()) puts(s.name.c_str()); return 0; }
  if (tmp.empty()) { char t[] = "/tmp/mcXXXXXX"; tmp = mkdtemp(t); }
  if (!replay.empty()) {
    size_t bar = replay.rfind('|');
    std::string name = replay.substr(0, bar), ps = replay.substr(bar + 1);
    std::vector<int> path; std::stringstream ss(ps); std::string tok;
    while (std::getline(ss, tok, ',')) if (!tok.empty()) path.push_back(atoi(tok.c_str()));
    for (size_t i = 0; i < suites().size(); i++) if (suites()[i].name == name) {
      std::string d, r = replay_once((int)i, path, tmp, &d, 60);
      printf("%s [%s]\n  case: %s\n  result: %s\n", name.c_str(), ps.c_str(), d.c_str(), r.empty() ? "property held" : r.c_str());
      return r.empty() ? 0 : 1;
    }
    printf("no such suite: %s\n", name.c_str());
    return 2;
  }

  double t0 = now();
  std::vector<shared*> sh(jobs); std::vector<pid_t> pid(jobs);
  std::vector<int> todo;
  for (size_t i = 0; i < suites().size(); i++)
    if (only.empty() || suites()[i].name.find(only) != std::string::npos) todo.push_back((int)i);
  std::string viol_json, err_json;
  std::vector<int> state(jobs, 0);  // 0 running, 1 done
  auto spawn = [&](int w) {
    memset((void*)sh[w], 0, sizeof(shared));
    fflush(nullptr);
    pid[w] = fork();
    if (pid[w] == 0) {
      shm() = sh[w]; limit_stderr(); redirect_stderr(tmp + "/w" + std::to_string(w) + ".err");
      std::string f = tmp + "/w" + std::to_string(w) + ".res", d = tmp + "/w" + std::to_string(w) + ".dig";
      FILE* fo = fopen(f.c_str(), "w"); FILE* fd = fopen(d.c_str(), "wb");
#if !defined(__SANITIZE_ADDRESS__) && !(defined(__has_feature) && MC_HAS_ASAN)
      struct rlimit r = {(3ul << 30) + MC_RESERVED, (3ul << 30) + MC_RESERVED}; setrlimit(RLIMIT_AS, &r);
#endif
      watch_flood();
      for (int i : todo) {
        shm()->suite = i;
        double s0 = now();
        suite_stats st = run_suite(suites()[i], w, jobs);
        fprintf(fo, "%d %ld %ld %ld %f", i, st.evals, st.nontrivial, (long)st.digests.size(), now() - s0);
        for (int k = 0; k < CNT; k++) fprintf(fo, " %ld", st.cnt[k]);
        fprintf(fo, "\n");
        fwrite(st.digests.data(), 8, st.digests.size(), fd);
        for (auto& s : st.samples) { std::string e = s; std::replace(e.begin(), e.end(), '\n', ' '); fprintf(fo, "S %d %s\n", i, e.c_str()); }
        for (int k = 0; k < CNT; k++) if (counter_names()[k]) { fprintf(fo, "N %d %s\n", k, counter_names()[k]); }
      }
      fclose(fo); fclose(fd);
      shm()->status = 1;
      _exit(0);
    }
  };
  for (int w = 0; w < jobs; w++) { sh[w] = new_shared(); spawn(w); }
  bool flooded = false; int running = jobs; std::vector<int> kills(jobs, 0);
  while (running > 0 && viol_json.empty() && err_json.empty()) {
    int st; pid_t p = waitpid(-1, &st, 0);
    if (p < 0) break;
    int w = -1; for (int i = 0; i < jobs; i++) if (pid[i] == p) w = i;
    if (w < 0) continue;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && sh[w]->status == 1) { running--; continue; }
    if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGKILL || WTERMSIG(st) == SIGTERM)) {
      // Ended from outside (memory guard): not an observation about the code. Run this shard again.
      if (++kills[w] > 2) { err_json = "worker killed repeatedly from outside"; break; }
      spawn(w); continue;
    }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 77) { flooded = true; break; }
    // A finding: confirm it by replaying the single case in a fresh process.
    int si = sh[w]->suite; std::vector<int> path;
    for (int i = 0; i < sh[w]->depth; i++) path.push_back((int)sh[w]->path[i]);
    std::string first = sh[w]->msg, d, r;
    if (WIFSIGNALED(st)) first = std::string("signal ") + strsignal(WTERMSIG(st)) + " " + first;
    for (int k = 0; k < 3 && r.empty(); k++) r = replay_once(si, path, tmp, &d, 3 * case_seconds());
    if (r.empty() && WIFSIGNALED(st) && WTERMSIG(st) == SIGPROF) { kills[w]++; if (kills[w] <= 2) { case_seconds() *= 3; spawn(w); continue; } }
    std::string tail = r.empty() ? tail_of(tmp + "/w" + std::to_string(w) + ".err", 600) : "";
    viol_json = "{\"suite\":\"" + jesc(suites()[si].name) + "\",\"path\":\"" + path_str(path) + "\",\"case\":\"" + jesc(d) +
                "\",\"message\":\"" + jesc(r.empty() ? first + " (seen in exploration, single-case replay passed) " + tail : r) + "\",\"replayed\":" + (r.empty() ? "false" : "true") + "}";
  }
  if (!viol_json.empty() || !err_json.empty() || flooded) for (int w = 0; w < jobs; w++) kill(pid[w], SIGKILL);
  while (waitpid(-1, nullptr, 0) > 0) {}

  std::vector<suite_stats> tot(suites().size());
  std::vector<std::string> cname(CNT);
  for (int w = 0; w < jobs; w++) {
    FILE* fi = fopen((tmp + "/w" + std::to_string(w) + ".res").c_str(), "r");
    FILE* fd = fopen((tmp + "/w" + std::to_string(w) + ".dig").c_str(), "rb");
    if (!fi || !fd) continue;
    char line[4096];
    while (fgets(line, sizeof line, fi)) {
      if (line[0] == 'S') {
        int i; int off; if (sscanf(line, "S %d %n", &i, &off) == 1) { std::string s = line + off; while (!s.empty() && s.back() == '\n') s.pop_back(); tot[i].samples.push_back(s); }
      } else if (line[0] == 'N') {
        int k; char n[64]; if (sscanf(line, "N %d %63s", &k, n) == 2) cname[k] = n;
      } else {
        std::stringstream ss(line); int i; long e, nt, dg; double wl; ss >> i >> e >> nt >> dg >> wl;
        tot[i].evals += e; tot[i].nontrivial += nt; tot[i].wall = std::max(tot[i].wall, wl);
        for (int k = 0; k < CNT; k++) { long v = 0; ss >> v; tot[i].cnt[k] += v; }
        size_t old = tot[i].digests.size(); tot[i].digests.resize(old + dg);
        if (dg) { if (fread(&tot[i].digests[old], 8, dg, fd) != (size_t)dg) { fprintf(stderr, "short digest file\n"); } }
      }
    }
    fclose(fi); fclose(fd);
  }
  std::string js = "{\"suites\":[";
  bool firsts = true;
  for (int i : todo) {
    auto& t = tot[i];
    std::sort(t.digests.begin(), t.digests.end());
    t.distinct = std::unique(t.digests.begin(), t.digests.end()) - t.digests.begin();
    uint64_t dg = 0; for (long k = 0; k < t.distinct; k++) dg = (dg ^ t.digests[k]) * 0x100000001b3ull + 0x9e37;
    if (!firsts) js += ",";
    firsts = false;
    js += "{\"name\":\"" + jesc(suites()[i].name) + "\",\"evaluations\":" + std::to_string(t.evals) + ",\"nontrivial\":" + std::to_string(t.nontrivial) +
          ",\"distinct\":" + std::to_string(t.distinct) + ",\"digest\":\"" + std::to_string(dg) + "\",\"wall\":" + std::to_string(t.wall) + ",\"counters\":{";
    bool f2 = true;
    for (int k = 0; k < CNT; k++) if (!cname[k].empty() && t.cnt[k]) { js += std::string(f2 ? "" : ",") + "\"" + cname[k] + "\":" + std::to_string(t.cnt[k]); f2 = false; }
    js += "},\"samples\":[";
    for (size_t k = 0; k < t.samples.size() && k < 3; k++) js += std::string(k ? "," : "") + "\"" + jesc(t.samples[k]) + "\"";
    js += "]}";
  }
  js += "],\"wall\":" + std::to_string(now() - t0) + ",\"violation\":" + (viol_json.empty() ? "null" : viol_json) +
        ",\"flooded\":" + (flooded ? "true" : "false") + ",\"error\":" + (err_json.empty() ? "null" : "\"" + jesc(err_json) + "\"") + "}";
  FILE* f = out.empty() ? stdout : fopen(out.c_str(), "w");
  fprintf(f, "%s\n", js.c_str());
  if (f != stdout) fclose(f);
  return !err_json.empty() ? 2 : !viol_json.empty() ? 1 : 0;
}

}  // namespace mc

#ifndef MC_NO_MAIN
int main(int argc, char** argv) { return mc::main_(argc, argv); }
#endif
