// Exhaustive-exploration driver.
//
// A property function enumerates its whole bounded space as a sequence of
// *configurations*, each identified by a text key, and inside a configuration
// all *contents*.  Workers (forked processes) claim configurations from a
// shared ticket counter, so that the union of what they run is exactly the
// enumerated space.  A worker that dies (AddressSanitizer report, failed
// CHECK, signal) or stops making progress is a violation of the configuration
// it was running; exploration continues behind it.
#ifndef VERIF_MC_H_
#define VERIF_MC_H_

#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <atomic>
#include <functional>
#include <string>
#include <vector>

namespace mc {

constexpr int kMaxJobs = 64, kMaxViol = 48, kKey = 1024, kMsg = 3000;
constexpr uint32_t kHashBits = 1u << 22;

struct Viol { char key[kKey]; char msg[kMsg]; };
constexpr int kMaxClass = 8;
struct Shared {
  std::atomic<int64_t> ticket, configs, evals, steps, accepted, rejected;
  std::atomic<int64_t> heartbeat[kMaxJobs];
  std::atomic<int> running[kMaxJobs];
  char cur[kMaxJobs][kKey];
  std::atomic<int> nviol;
  Viol viol[kMaxViol];
  std::atomic<int64_t> class_count[kMaxClass];  // failures of a narrowly described class
  char class_name[kMaxClass][64];
  Viol class_first[kMaxClass];
  std::atomic<int> nsamples;
  char sample[6][kKey * 2];
  char visited[4][kKey];  // some configurations, for harnesses that give no samples
  std::atomic<uint32_t> hashes[kHashBits / 32];
};

struct Explorer {
  Shared* sh = nullptr;
  int shard = 0;
  bool thorough = false;
  std::string replay;  // non-empty: only this configuration
  int64_t idx = 0, mine = -1;
  bool failed_here = false;
  bool alias_in_progress = false;
  const int slow = getenv("MC_SLOW") ? atoi(getenv("MC_SLOW")) : 0;  // reports configurations that take so many seconds

  template <class KeyFn, class RunFn>
  void config(KeyFn key, RunFn run) {
    if (!replay.empty()) {
      std::string k = key();
      if (k != replay) { ++idx; return; }
      start(k);
      run();
      finish();
      ++idx;
      return;
    }
    if (mine < 0) mine = sh->ticket.fetch_add(1);
    if (idx++ != mine) return;
    if (sh->nviol.load() < kMaxViol) {
      start(key());
      if (isolated) {
        Isolated(run);
        finish();
        mine = sh->ticket.fetch_add(1);
        return;
      }
      const time_t t0 = time(nullptr);
      run();
      if (slow && time(nullptr) - t0 >= slow) fprintf(stderr, "%d s: %s\n", (int)(time(nullptr) - t0), sh->cur[shard]);
      finish();
    }
    mine = sh->ticket.fetch_add(1);
  }
  // Runs one configuration in a process of its own, which knows nothing of the
  // configurations before (static variables of the code under test).
  bool isolated = false;
  template <class RunFn>
  void Isolated(RunFn run) {
    fflush(stdout);
    fflush(stderr);
    const pid_t p = fork();
    if (p == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      run();
      fflush(stderr);
      _exit(0);
    }
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (WIFSIGNALED(st)) {
      signal(WTERMSIG(st), SIG_DFL);
      raise(WTERMSIG(st));
      _exit(1);
    }
    if (WEXITSTATUS(st)) _exit(WEXITSTATUS(st));
  }
  void start(const std::string& k) {
    snprintf(sh->cur[shard], kKey, "%s", k.c_str());
    for (int i = 0, at = 1; i < 4; ++i, at *= 40)
      if (idx == at) snprintf(sh->visited[i], kKey, "%s", k.c_str());
    sh->running[shard] = 1;
    failed_here = false;
    sh->configs++;
    sh->steps += 2;  // the operator is created and prepared
  }
  void finish() { sh->running[shard] = 0; sh->heartbeat[shard]++; }
  const char* key() const { return sh->cur[shard]; }

  void eval(int64_t steps = 1) {
    sh->evals.fetch_add(1, std::memory_order_relaxed);
    sh->steps.fetch_add(steps, std::memory_order_relaxed);
    sh->heartbeat[shard].fetch_add(1, std::memory_order_relaxed);
  }
  void outcome(const void* p, size_t n, uint64_t seed = 1469598103934665603ull) {
    uint64_t h = seed;
    const uint8_t* b = (const uint8_t*)p;
    for (size_t i = 0; i < n; ++i) { h ^= b[i]; h *= 1099511628211ull; }
    h ^= h >> 29;
    uint32_t s = (uint32_t)(h % kHashBits);
    uint32_t bit = 1u << (s & 31);
    if (!(sh->hashes[s / 32].load(std::memory_order_relaxed) & bit))
      sh->hashes[s / 32].fetch_or(bit, std::memory_order_relaxed);
  }
  void sample(const char* fmt, ...) __attribute__((format(printf, 2, 3))) {
    if (sh->nsamples.load(std::memory_order_relaxed) >= 6) return;
    int n = sh->nsamples.fetch_add(1);
    if (n >= 6) return;
    va_list ap;
    va_start(ap, fmt);
    char buf[kKey];
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    snprintf(sh->sample[n], sizeof sh->sample[n], "%s | %s", key(), buf);
  }
  // A failure the harness can attribute to one precisely described class (it
  // has checked that nothing else is wrong). Whether the class is a known
  // finding is decided by known_findings.json; if not, it is a violation.
  void fail_class(const char* name, const std::string& msg) {
    if (failed_here) return;
    for (int i = 0; i < kMaxClass; ++i) {
      if (!*sh->class_name[i]) snprintf(sh->class_name[i], sizeof sh->class_name[i], "%s", name);
      if (strcmp(sh->class_name[i], name)) continue;
      if (sh->class_count[i]++ == 0) {
        snprintf(sh->class_first[i].key, sizeof sh->class_first[i].key, "%s", key());
        snprintf(sh->class_first[i].msg, sizeof sh->class_first[i].msg, "%s", msg.c_str());
      }
      return;
    }
    fail("%s", msg.c_str());
  }
  // First failure of a configuration is kept.
  void fail(const char* fmt, ...) __attribute__((format(printf, 2, 3))) {
    if (failed_here) return;
    failed_here = true;
    va_list ap;
    va_start(ap, fmt);
    char buf[kMsg];
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    add_violation(sh, key(), buf);
  }
  static void add_violation(Shared* sh, const char* k, const char* m) {
    int n = sh->nviol.fetch_add(1);
    if (n >= kMaxViol) return;
    snprintf(sh->viol[n].key, kKey, "%s", k);
    snprintf(sh->viol[n].msg, kMsg, "%s", m);
  }
};

inline double now() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}

inline std::string json_escape(const char* s) {
  std::string r;
  for (; *s; ++s) {
    unsigned char c = (unsigned char)*s;
    if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
    else if (c == '\n') r += "\\n";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
    else r += (char)c;
  }
  return r;
}

struct Options {
  std::string prop, tier = "quick", out, replay;
  int jobs = 8;
  double stall = 90;
  double budget = 0;  // 0: none
};

inline int run(const Options& o, const std::function<void(Explorer&)>& body) {
  prctl(PR_SET_PDEATHSIG, SIGKILL);  // not to outlive check.py
  Shared* sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                             MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  const int jobs = o.replay.empty() ? o.jobs : 1;
  std::vector<pid_t> pid(jobs, 0);
  std::vector<int64_t> hb(jobs, -1);
  std::vector<double> hbt(jobs, now());
  std::vector<std::string> errf(jobs);
  const double t0 = now();
  auto spawn = [&](int j) {
    char path[256];
    snprintf(path, sizeof path, "%s.err.%d", o.out.c_str(), j);
    errf[j] = path;
    fflush(stdout);
    fflush(stderr);
    pid_t p = fork();
    if (p == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      int fd = open(path, O_CREAT | O_TRUNC | O_WRONLY, 0644);
      dup2(fd, 2);
      Explorer ex;
      ex.sh = sh;
      ex.shard = j;
      ex.thorough = o.tier == "thorough";
      ex.replay = o.replay;
      body(ex);
      fflush(stderr);
      _exit(0);
    }
    pid[j] = p;
    hb[j] = -1;
    hbt[j] = now();
  };
  for (int j = 0; j < jobs; ++j) spawn(j);
  int live = jobs;
  while (live > 0) {
    int st;
    pid_t p = waitpid(-1, &st, WNOHANG);
    if (p > 0) {
      for (int j = 0; j < jobs; ++j)
        if (pid[j] == p) {
          bool ok = WIFEXITED(st) && WEXITSTATUS(st) == 0;
          if (WIFEXITED(st) && WEXITSTATUS(st) == 77) {
            // the machinery itself cannot answer
            if (FILE* f = fopen(errf[j].c_str(), "r")) {
              char b[2200];
              size_t n = fread(b, 1, sizeof b - 1, f);
              fwrite(b, 1, n, stderr);
              fclose(f);
            }
            for (int k = 0; k < jobs; ++k) if (pid[k] && k != j) kill(pid[k], SIGKILL);
            exit(77);
          }
          if (!ok) {
            std::string tail;
            if (FILE* f = fopen(errf[j].c_str(), "r")) {
              char b[2200];
              size_t n = fread(b, 1, sizeof b - 1, f);
              b[n] = 0;
              tail = b;
              fclose(f);
            }
            char m[kMsg];
            snprintf(m, sizeof m, "execution died (%s %d): %s",
                     WIFEXITED(st) ? "exit" : "signal",
                     WIFEXITED(st) ? WEXITSTATUS(st) : WTERMSIG(st),
                     tail.c_str());
            if (sh->running[j])
              Explorer::add_violation(sh, sh->cur[j], m);
            else
              Explorer::add_violation(sh, "(between configurations)", m);
            sh->running[j] = 0;
            if (o.replay.empty() && sh->nviol.load() < kMaxViol) {
              spawn(j);
              break;
            }
          }
          pid[j] = 0;
          --live;
        }
      continue;
    }
    const double t = now();
    for (int j = 0; j < jobs; ++j)
      if (pid[j]) {
        int64_t h = sh->heartbeat[j].load();
        if (h != hb[j] || !sh->running[j]) { hb[j] = h; hbt[j] = t; }
        else if (t - hbt[j] > o.stall) {
          Explorer::add_violation(sh, sh->cur[j], "execution does not terminate");
          sh->running[j] = 0;
          kill(pid[j], SIGKILL);
          int s2;
          waitpid(pid[j], &s2, 0);
          if (sh->nviol.load() < kMaxViol && o.replay.empty()) spawn(j);
          else { pid[j] = 0; --live; }
        }
      }
    usleep(5000);
  }
  for (auto& e : errf) unlink(e.c_str());
  int64_t distinct = 0;
  for (auto& w : sh->hashes) distinct += __builtin_popcount(w.load());
  FILE* f = fopen(o.out.c_str(), "w");
  fprintf(f, "{\"configs\": %lld, \"evaluations\": %lld, \"steps\": %lld, "
             "\"accepted\": %lld, \"rejected\": %lld, \"distinct_outcomes\": %lld, "
             "\"wall_s\": %.2f,\n \"samples\": [",
          (long long)sh->configs, (long long)sh->evals, (long long)sh->steps,
          (long long)sh->accepted, (long long)sh->rejected, (long long)distinct,
          now() - t0);
  int ns = std::min(6, sh->nsamples.load());
  for (int i = 0; i < ns; ++i)
    fprintf(f, "%s\"%s\"", i ? ", " : "", json_escape(sh->sample[i]).c_str());
  for (int i = 0, n = 0; !ns && i < 4; ++i)
    if (sh->visited[i][0]) fprintf(f, "%s\"%s\"", n++ ? ", " : "", json_escape(sh->visited[i]).c_str());
  fprintf(f, "],\n \"violations\": [");
  int nv = std::min(kMaxViol, sh->nviol.load());
  for (int i = 0; i < nv; ++i)
    fprintf(f, "%s\n  {\"key\": \"%s\", \"msg\": \"%s\"}", i ? "," : "",
            json_escape(sh->viol[i].key).c_str(),
            json_escape(sh->viol[i].msg).c_str());
  fprintf(f, "],\n \"classes\": [");
  for (int i = 0; i < kMaxClass && sh->class_count[i]; ++i)
    fprintf(f, "%s\n  {\"class\": \"%s\", \"count\": %lld, \"key\": \"%s\", \"msg\": \"%s\"}", i ? "," : "", sh->class_name[i], (long long)sh->class_count[i].load(),
            json_escape(sh->class_first[i].key).c_str(), json_escape(sh->class_first[i].msg).c_str());
  fprintf(f, "]}\n");
  fclose(f);
  return nv ? 1 : 0;
}

inline Options parse(int argc, char** argv) {
  Options o;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto nxt = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--prop") o.prop = nxt();
    else if (a == "--tier") o.tier = nxt();
    else if (a == "--out") o.out = nxt();
    else if (a == "--replay") o.replay = nxt();
    else if (a == "--jobs") o.jobs = atoi(nxt().c_str());
    else if (a == "--stall") o.stall = atof(nxt().c_str());
  }
  if (o.jobs < 1) o.jobs = 1;
  if (o.jobs > kMaxJobs) o.jobs = kMaxJobs;
  return o;
}

inline std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char* f, ...) {
  char b[4096];
  va_list ap;
  va_start(ap, f);
  const int n = vsnprintf(b, sizeof b, f, ap);
  va_end(ap);
  if (n < (int)sizeof b) return b;
  std::string s(n, ' ');
  va_start(ap, f);
  vsnprintf(&s[0], n + 1, f, ap);
  va_end(ap);
  return s;
}

}  // namespace mc
#endif
