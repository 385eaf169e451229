// mc.h - a small stateless model checker.
//
// A check is a function  void body(mc::C& c)  that runs the real library code and
// asks  c.choose(n)  for every decision that is not fixed (operation, argument,
// input coordinate, configuration, ...).  The explorer enumerates *every* sequence
// of answers (depth-first, no sampling), splitting the tree over worker processes.
// The body reports a broken property with c.fail(key, message).  A crash, a
// sanitizer report or a hang of the library inside the body is a failure as well.
// Each failure is replayed alone, twice, before it is reported.
#ifndef VERIF_MC_H
#define VERIF_MC_H
#include <atomic>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <errno.h>
#include <fcntl.h>
#include <setjmp.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace mc {

struct Prune {};                       // unwinds an execution that adds nothing new
struct Skip {};                        // prefix enumeration: stop at the shard depth
struct Violation { std::string key, msg; };

inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
inline uint64_t mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull; h ^= h >> 33; return h;
}
inline uint64_t hbits(double d) { if (d == 0) d = 0; uint64_t u; memcpy(&u, &d, 8); return u; }
inline uint64_t hstr(const std::string& s) { uint64_t h = 1469598103934665603ull; for (char ch : s) h = mix(h, (unsigned char)ch); return h; }
inline std::string fmt(const char* f, ...) {
  char b[4096]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b;
}

enum { MAXCH = 4096, MAXMSG = 4096, MAXW = 64, MAXKNOWN = 64 };
struct WorkerShm {
  std::atomic<uint64_t> beat;          // bumped once per execution
  std::atomic<uint32_t> nch;
  uint16_t ch[MAXCH];
  std::atomic<uint64_t> paths, steps, pruned;
  std::atomic<int> violated;
  char key[512]; char msg[MAXMSG];
  std::atomic<int> done;
  std::atomic<uint64_t> knownhits[MAXKNOWN];
};
struct Shm {
  std::atomic<uint64_t> next;          // next shard
  std::atomic<uint64_t> nstates, noutcomes;
  std::atomic<int> stop;
  std::atomic<int> capped;
  std::atomic<uint64_t> counters[64];
  WorkerShm w[MAXW];
};
static const uint64_t TABN = 1ull << 26;   // distinct-state table (lazily touched)
static const uint64_t OUTN = 1ull << 22;   // distinct-outcome table

struct Known { std::string prop, key, text; };

struct Global {
  Shm* shm = nullptr;
  std::atomic<uint64_t>* tab = nullptr;
  std::atomic<uint64_t>* out = nullptr;
  bool thorough = false;
  std::vector<Known> known;
};
inline Global& G() { static Global g; return g; }

inline bool insert_table(std::atomic<uint64_t>* t, uint64_t n, std::atomic<uint64_t>& cnt, uint64_t h) {
  if (h == 0) h = 1;
  uint64_t i = (h * 0x9e3779b97f4a7c15ull) & (n - 1);
  for (uint64_t k = 0; k < 4096; ++k, i = (i + 1) & (n - 1)) {
    uint64_t v = t[i].load(std::memory_order_relaxed);
    if (v == h) return false;
    if (v == 0) {
      if (t[i].compare_exchange_strong(v, h)) { cnt.fetch_add(1, std::memory_order_relaxed); return true; }
      if (v == h) return false;
    }
  }
  return true;                          // table full: treat as new, do not count
}

class C {
public:
  C() { ch_.reserve(MAXCH); width_.reserve(MAXCH); }   // never reallocated while a body runs
  C(const C&) = delete;
  // ---- used by bodies -----------------------------------------------------
  int choose(int n) {
    if (n <= 0) { fprintf(stderr, "mc: choose(%d)\n", n); abort(); }
    int v;
    if (pos_ < (int)ch_.size()) { v = ch_[pos_]; if (v >= n) { fprintf(stderr, "mc: replay divergence\n"); _exit(97); } width_[pos_] = n; }
    else {
      if (limit_ >= 0 && pos_ >= limit_) throw Skip();
      v = 0; ch_.push_back(0); width_.push_back(n);
    }
    if (w_ && pos_ < MAXCH) { w_->ch[pos_] = (uint16_t)v; w_->nch.store(pos_ + 1, std::memory_order_relaxed); }
    ++pos_;
    return v;
  }
  template <class T> const T& pick(const std::vector<T>& v) { return v[choose((int)v.size())]; }
  bool flag() { return choose(2) == 1; }
  // register a visited (canonical) state; true when it was not seen before
  bool state(uint64_t h) { if (dry_) return true; return insert_table(G().tab, TABN, G().shm->nstates, h); }
  void outcome(uint64_t h) { if (!dry_) insert_table(G().out, OUTN, G().shm->noutcomes, h); }
  void prune() { throw Prune(); }
  void count(int i, uint64_t n = 1) { if (!dry_) G().shm->counters[i].fetch_add(n, std::memory_order_relaxed); }
  // A failure.  If (property,key) is a listed known finding it is counted and this
  // execution is abandoned; otherwise it is a violation.
  [[noreturn]] void fail(const std::string& key, const std::string& msg) { throw Violation{key, msg}; }
  bool verbose() const { return verbose_; }
  void note(const char* f, ...) {
    if (!verbose_) return;
    char b[4096]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a);
    if (notefd_ >= 0) { ssize_t r = write(notefd_, b, strlen(b)); r = write(notefd_, "\n", 1); (void)r; }
  }
  bool thorough() const { return G().thorough; }
  void context(const std::string& s) { ctx_ = s; }       // names what is being run (survey only)
  const std::vector<int>& choices() const { return ch_; }

  // ---- used by the explorer ----------------------------------------------
  std::vector<int> ch_, width_; std::string ctx_;
  int pos_ = 0, limit_ = -1;
  bool verbose_ = false, dry_ = false; int notefd_ = -1;
  WorkerShm* w_ = nullptr;
};

struct Spec {
  std::string property;
  std::string level = "model_checking";
  std::function<void(C&)> body;
  int shard_depth = 3;
  double hang_s = 20;                   // one execution may take this long
  std::string explanation;              // what is enumerated, against what oracle
  std::vector<std::string> assumptions;
  std::vector<std::string> counter_names;
  std::string crash_key;                // optional known-finding key for crashes
  int workers = 0;
};

// advance ch to the next sequence in depth-first order; returns index of changed position or -1
inline int advance(std::vector<int>& ch, std::vector<int>& width, int floor) {
  int i = (int)ch.size() - 1;
  while (i >= floor && ch[i] + 1 >= width[i]) --i;
  if (i < floor) return -1;
  ch.resize(i + 1); width.resize(i + 1); ch[i]++;
  return i;
}

inline std::string jesc(const std::string& s) {
  std::string r; for (unsigned char c : s) {
    if (c == '"') r += "\\\""; else if (c == '\\') r += "\\\\"; else if (c == '\n') r += "\\n"; else if (c == '\t') r += "\\t";
    else if (c < 32 || c > 126) r += fmt("\\u%04x", c); else r += (char)c; }
  return r;
}

enum RunRes { RR_OK = 0, RR_VIOL = 1, RR_PRUNE = 2 };
inline RunRes run_body(const Spec& sp, C& c, std::string& key, std::string& msg) {
  c.pos_ = 0;
  try { sp.body(c); }
  catch (Prune&) { return RR_PRUNE; }
  catch (Violation& v) { key = v.key; msg = v.msg; return RR_VIOL; }
  catch (Skip&) { throw; }
  catch (std::exception& e) { key = "exception"; msg = std::string("unexpected exception: ") + e.what(); return RR_VIOL; }
  return RR_OK;
}

// development aid (MC_SURVEY): turn a crash inside the body into a failure key and go on
inline sigjmp_buf& survey_jmp() { static sigjmp_buf b; return b; }
inline void survey_handler(int) { siglongjmp(survey_jmp(), 1); }
inline RunRes survey_body(const Spec& sp, C& c, std::string& key, std::string& msg) {
  static bool init = false;
  if (!init) { init = true; static char st[1 << 16]; stack_t ss; ss.ss_sp = st; ss.ss_size = sizeof st; ss.ss_flags = 0; sigaltstack(&ss, nullptr);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = survey_handler; sa.sa_flags = SA_ONSTACK | SA_NODEFER; for (int g : {SIGSEGV, SIGFPE, SIGABRT, SIGALRM}) sigaction(g, &sa, nullptr); }
  c.ctx_.clear();
  if (sigsetjmp(survey_jmp(), 1)) { alarm(0); key = "crash/" + c.ctx_; msg = "crash or hang"; c.ch_.resize(std::min(c.ch_.size(), (size_t)c.pos_)); c.width_.resize(c.ch_.size()); return RR_VIOL; }
  alarm(4); RunRes r = run_body(sp, c, key, msg); alarm(0); return r;
}

inline int known_index(const std::string& prop, const std::string& key) {
  auto& k = G().known;
  for (size_t i = 0; i < k.size(); ++i) if (k[i].prop == prop && k[i].key == key) return (int)i;
  return -1;
}

inline void worker(const Spec& sp, int id, double deadline) {
  Shm* s = G().shm; WorkerShm& w = s->w[id];
  C pre; pre.limit_ = sp.shard_depth; pre.dry_ = true;
  uint64_t preidx = 0; bool have = false, exhausted = false;
  while (!s->stop.load() && !exhausted) {
    uint64_t want = s->next.fetch_add(1);
    while (!exhausted) {                // step the prefix enumeration to `want`
      if (have) {
        if (preidx == want) break;
        if (advance(pre.ch_, pre.width_, 0) < 0) { exhausted = true; break; }
        ++preidx;
      }
      pre.w_ = &w; std::string k, m;
      try { run_body(sp, pre, k, m); } catch (Skip&) {}
      w.beat.fetch_add(1);
      // a completed shorter run leaves ch_ at its true length
      pre.ch_.resize(pre.pos_); pre.width_.resize(pre.pos_);
      have = true;
      if (preidx == want) break;
    }
    if (exhausted) break;
    C c; c.ch_.assign(pre.ch_.begin(), pre.ch_.end()); c.width_.assign(pre.width_.begin(), pre.width_.end()); c.w_ = &w;
    const int floor = (int)c.ch_.size();
    int changed = 0;
    for (;;) {
      w.beat.fetch_add(1);
      std::string key, msg; w.nch.store(0);
      RunRes r = getenv("MC_SURVEY") ? survey_body(sp, c, key, msg) : run_body(sp, c, key, msg);
      if (c.pos_ < (int)c.ch_.size()) { c.ch_.resize(c.pos_); c.width_.resize(c.pos_); }
      w.paths.fetch_add(1, std::memory_order_relaxed);
      w.steps.fetch_add((uint64_t)((int)c.ch_.size() - changed), std::memory_order_relaxed);
      if (r == RR_PRUNE) w.pruned.fetch_add(1, std::memory_order_relaxed);
      if (r == RR_VIOL) {
        int ki = known_index(sp.property, key);
        if (ki >= 0 && ki < MAXKNOWN) w.knownhits[ki].fetch_add(1);
        else if (getenv("MC_SURVEY")) {  // development aid: list every failure key, do not stop
          static std::set<std::string> seen;
          if (getenv("MC_SURVEY_ALL") || seen.insert(key).second) {
            std::string l = key + " :: " + msg + " :: choices:"; for (int v : c.ch_) l += " " + std::to_string(v); l += "\n";
            int fd = open(getenv("MC_SURVEY"), O_WRONLY | O_APPEND | O_CREAT, 0644); ssize_t q = write(fd, l.data(), l.size()); (void)q; close(fd);
          }
        } else {
          snprintf(w.key, sizeof w.key, "%s", key.c_str());
          snprintf(w.msg, sizeof w.msg, "%s", msg.c_str());
          w.nch.store((uint32_t)std::min<size_t>(c.ch_.size(), MAXCH));
          w.violated.store(1); s->stop.store(1); _exit(3);
        }
      }
      if (s->stop.load()) break;
      if (now() > deadline) { s->capped.store(1); s->stop.store(1); break; }
      changed = advance(c.ch_, c.width_, floor);
      if (changed < 0) break;
    }
  }
  w.done.store(1);
}

struct ReplayResult { bool failed = false; bool hang = false; std::string key, msg, notes; };
// run one choice sequence alone, in a fresh process
inline ReplayResult replay_one(const Spec& sp, const std::vector<int>& ch, double limit_s) {
  ReplayResult res;
  int p[2]; if (pipe(p)) return res;
  fflush(stdout); fflush(stderr);
  WorkerShm& w = G().shm->w[MAXW - 1];
  w.violated.store(0); w.key[0] = 0; w.msg[0] = 0;
  pid_t pid = fork();
  if (pid == 0) {
    close(p[0]);
    C c; c.ch_.assign(ch.begin(), ch.end()); c.width_.assign(ch.size(), 0); c.verbose_ = true; c.dry_ = true; c.notefd_ = p[1];
    std::string key, msg;
    RunRes r = RR_OK;
    try { r = run_body(sp, c, key, msg); } catch (Skip&) {}
    if (r == RR_VIOL) { snprintf(w.key, sizeof w.key, "%s", key.c_str()); snprintf(w.msg, sizeof w.msg, "%s", msg.c_str()); w.violated.store(1); _exit(3); }
    _exit(0);
  }
  close(p[1]); fcntl(p[0], F_SETFL, O_NONBLOCK);
  double t0 = now(); int st = 0; bool ended = false;
  char buf[4096];
  for (;;) {
    ssize_t n; while ((n = read(p[0], buf, sizeof buf)) > 0) if (res.notes.size() < 200000) res.notes.append(buf, n);
    pid_t r = waitpid(pid, &st, WNOHANG);
    if (r == pid) { ended = true; break; }
    if (now() - t0 > limit_s) { kill(pid, SIGKILL); waitpid(pid, &st, 0); break; }
    usleep(2000);
  }
  ssize_t n; while ((n = read(p[0], buf, sizeof buf)) > 0) if (res.notes.size() < 200000) res.notes.append(buf, n);
  close(p[0]);
  if (!ended) { res.failed = res.hang = true; res.key = "hang"; res.msg = fmt("no result within %.0f s", limit_s); return res; }
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return res;
  res.failed = true;
  if (w.violated.load()) { res.key = w.key; res.msg = w.msg; return res; }
  if (WIFSIGNALED(st)) { res.key = "crash"; res.msg = fmt("terminated by signal %d", WTERMSIG(st)); }
  else { res.key = "crash"; res.msg = fmt("abnormal exit %d (sanitizer report or abort)", WEXITSTATUS(st)); }
  return res;
}

inline size_t rss_mb(pid_t p) {
  std::ifstream f(fmt("/proc/%d/statm", (int)p)); size_t a = 0, b = 0; f >> a >> b; return b * 4096 / 1048576;
}

inline int run(int argc, char** argv, const Spec& sp) {
  std::string tier = getenv("VERIF_TIER") ? getenv("VERIF_TIER") : "quick";
  int seed = getenv("VERIF_SEED") ? atoi(getenv("VERIF_SEED")) : 1;
  std::string evidence, replaydir = ".", knownfile, replayfile; double budget = 600; int nw = sp.workers ? sp.workers : 8;
  if (getenv("VERIF_JOBS")) nw = atoi(getenv("VERIF_JOBS"));
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string a = argv[i], v = argv[i + 1];
    if (a == "--evidence") evidence = v; else if (a == "--replaydir") replaydir = v; else if (a == "--known") knownfile = v;
    else if (a == "--budget") budget = atof(v.c_str()); else if (a == "--tier") tier = v; else if (a == "--replay") replayfile = v;
    else if (a == "--jobs") nw = atoi(v.c_str());
  }
  if (nw > MAXW - 1) nw = MAXW - 1;
  G().thorough = (tier == "thorough");
  void* m = mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  G().shm = new (m) Shm();
  G().tab = (std::atomic<uint64_t>*)mmap(nullptr, TABN * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  G().out = (std::atomic<uint64_t>*)mmap(nullptr, OUTN * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  Shm* s = G().shm;
  if (!knownfile.empty()) {            // lines: KNOWN property=<id> key=<key> :: text
    std::ifstream f(knownfile); std::string l;
    while (std::getline(f, l)) {
      if (l.compare(0, 6, "KNOWN ")) continue;
      Known k; size_t a = l.find("property="), b = l.find(" key="), c = l.find(" :: ");
      if (a == std::string::npos || b == std::string::npos || c == std::string::npos) continue;
      k.prop = l.substr(a + 9, b - a - 9); k.key = l.substr(b + 5, c - b - 5); k.text = l.substr(c + 4);
      if (k.prop == sp.property) G().known.push_back(k);
    }
  }
  if (!replayfile.empty()) {
    std::ifstream f(replayfile); std::string l; std::vector<int> ch;
    while (std::getline(f, l)) if (l.compare(0, 8, "choices:") == 0) { std::istringstream is(l.substr(8)); int v; while (is >> v) ch.push_back(v); }
      else if (l == "tier: thorough") G().thorough = true;
    ReplayResult r = replay_one(sp, ch, 120);
    printf("%s", r.notes.c_str());
    if (r.failed) { printf("FAILS key=%s: %s\n", r.key.c_str(), r.msg.c_str()); printf("VIOLATION property=%s replay=%s\n", sp.property.c_str(), replayfile.c_str()); return 1; }
    printf("passes\n"); return 0;
  }
  double t0 = now();
  fflush(stdout);
  std::vector<pid_t> pids(nw); std::vector<uint64_t> beat(nw, 0); std::vector<double> last(nw, t0); std::vector<char> alive(nw, 1);
  for (int i = 0; i < nw; ++i) {
    pid_t p = fork();
    if (p == 0) {
      int dn = open("/dev/null", O_WRONLY); dup2(dn, 1); if (!getenv("MC_STDERR")) dup2(dn, 2);
      worker(sp, i, t0 + budget); _exit(0);
    }
    pids[i] = p;
  }
  int left = nw; int bad = -1, badst = 0; bool hang = false; 
  while (left > 0) {
    for (int i = 0; i < nw; ++i) if (alive[i]) {
      int st; pid_t r = waitpid(pids[i], &st, WNOHANG);
      if (r == pids[i]) {
        alive[i] = 0; --left;
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0 && s->w[i].done.load())) { if (bad < 0) { bad = i; badst = st; } s->stop.store(1); }
        continue;
      }
      uint64_t b = s->w[i].beat.load();
      if (b != beat[i]) { beat[i] = b; last[i] = now(); }
      else if (now() - last[i] > sp.hang_s || rss_mb(pids[i]) > 6000) {
        kill(pids[i], SIGKILL); waitpid(pids[i], &st, 0); alive[i] = 0; --left; if (bad < 0) { bad = i; hang = true; } s->stop.store(1);
      }
    }
    if (bad >= 0) {                     // give the others a moment, then end them
      double t1 = now();
      while (left > 0 && now() - t1 < 2) { for (int i = 0; i < nw; ++i) if (alive[i]) { int st; if (waitpid(pids[i], &st, WNOHANG) == pids[i]) { alive[i] = 0; --left; } } usleep(2000); }
      for (int i = 0; i < nw; ++i) if (alive[i]) { kill(pids[i], SIGKILL); int st; waitpid(pids[i], &st, 0); alive[i] = 0; --left; }
    }
    usleep(1000);
  }
  int rc = 0; std::string viol_key, viol_msg; std::vector<int> vch; std::string path; bool unconfirmed = false;
  if (bad >= 0) {
    WorkerShm& w = s->w[bad];
    for (uint32_t i = 0; i < w.nch.load() && i < MAXCH; ++i) vch.push_back(w.ch[i]);
    ReplayResult a = replay_one(sp, vch, hang ? 120 : 60), b;
    if (a.failed) b = replay_one(sp, vch, hang ? 120 : 60);
    if (a.failed && b.failed) {
      rc = 1; viol_key = a.key; viol_msg = a.msg;
      mkdir(replaydir.c_str(), 0755);
      path = fmt("%s/%s.replay", replaydir.c_str(), sp.property.c_str());
      std::ofstream o(path);
      o << "property: " << sp.property << "\ntier: " << tier << "\nkey: " << a.key << "\nmessage: " << a.msg << "\nchoices:";
      for (int v : vch) o << " " << v;
      o << "\ntrace:\n" << a.notes;
    } else {
      unconfirmed = true;               // did not reproduce alone: not reported as a violation
      fprintf(stderr, "mc: worker failure did not reproduce alone: status=%x hang=%d key=%s msg=%s choices:", badst, (int)hang, w.key, w.msg);
      for (int v : vch) fprintf(stderr, " %d", v);
      fprintf(stderr, "\n");
    }
  }
  uint64_t paths = 0, steps = 0, pruned = 0; std::vector<uint64_t> kh(MAXKNOWN, 0);
  for (int i = 0; i < nw; ++i) { paths += s->w[i].paths; steps += s->w[i].steps; pruned += s->w[i].pruned; for (int k = 0; k < MAXKNOWN; ++k) kh[k] += s->w[i].knownhits[k]; }
  // samples: the first execution and two others, written out by replaying them
  std::vector<std::string> samples;
  {
    std::vector<std::vector<int>> pickv; pickv.push_back({});
    for (int i = 0; i < nw && pickv.size() < 4; ++i) { std::vector<int> v; for (uint32_t k = 0; k < s->w[i].nch.load() && k < MAXCH; ++k) v.push_back(s->w[i].ch[k]); if (!v.empty() && (i == 0 || i == nw / 2 || i == nw - 1)) pickv.push_back(v); }
    for (auto& v : pickv) { ReplayResult r = replay_one(sp, v, 30); std::string t = "choices ["; for (size_t i = 0; i < v.size(); ++i) t += (i ? " " : "") + std::to_string(v[i]); t += "] "; t += r.notes.substr(0, 1500); samples.push_back(t); }
  }
  bool capped = s->capped.load() || unconfirmed;
  double wall = now() - t0;
  if (!evidence.empty()) {
    std::ofstream o(evidence);
    o << "{\n \"property\": \"" << sp.property << "\",\n \"tier\": \"" << tier << "\",\n \"seed\": " << seed << ",\n \"level\": \"" << sp.level << "\",\n \"coverage\": {\n";
    o << "  \"states\": " << s->nstates.load() << ",\n  \"transitions\": " << steps << ",\n  \"traces_validated_against_impl\": " << paths << ",\n";
    o << "  \"distinct_outcomes\": " << s->noutcomes.load() << ",\n";
    o << "  \"pruned_revisits\": " << pruned << ",\n";
    for (size_t i = 0; i < sp.counter_names.size(); ++i) o << "  \"" << jesc(sp.counter_names[i]) << "\": " << s->counters[i].load() << ",\n";
    o << "  \"exhaustive\": " << ((capped || rc) ? "false" : "true") << ",\n";
    o << "  \"explanation\": \"" << jesc(sp.explanation) << (capped ? " [time cap reached: exploration incomplete]" : "") << "\",\n";
    o << "  \"samples\": [";
    for (size_t i = 0; i < samples.size(); ++i) o << (i ? ",\n   " : "\n   ") << "\"" << jesc(samples[i]) << "\"";
    o << "\n  ]\n },\n \"assumptions\": [";
    for (size_t i = 0; i < sp.assumptions.size(); ++i) o << (i ? ", " : "") << "\"" << jesc(sp.assumptions[i]) << "\"";
    o << "],\n \"wall_s\": " << wall << ",\n \"violations\": " << rc << "\n}\n";
  }
  printf("%s: states=%llu transitions=%llu executions=%llu outcomes=%llu pruned=%llu wall=%.1fs%s\n", sp.property.c_str(), (unsigned long long)s->nstates.load(),
         (unsigned long long)steps, (unsigned long long)paths, (unsigned long long)s->noutcomes.load(), (unsigned long long)pruned, wall, capped ? " (time cap reached)" : "");
  for (size_t i = 0; i < sp.counter_names.size(); ++i) printf("  %s=%llu\n", sp.counter_names[i].c_str(), (unsigned long long)s->counters[i].load());
  for (size_t k = 0; k < G().known.size(); ++k) printf("KNOWN-FINDING: property=%s %s\n", sp.property.c_str(), G().known[k].text.c_str());
  if (rc) {
    printf("failure key=%s: %s\n", viol_key.c_str(), viol_msg.c_str());
    printf("VIOLATION property=%s replay=%s\n", sp.property.c_str(), path.c_str());
  }
  fflush(stdout);
  return rc;
}

} // namespace mc
#endif
