// Bounded exhaustive exploration driver: enumerates every index of every
// family, in parallel forked workers, with crash / hang attribution and
// replay-before-report.
#pragma once
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>
#include <atomic>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <string>
#include <string_view>
#include <vector>
#include <malloc.h>

namespace hx {
inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

struct Slot {  // one per worker, shared
  std::atomic<uint64_t> fam, idx, busy, evals, calls, states;
  std::atomic<uint32_t> inkind, inlen;
  char in[70000];
};
constexpr int MAXV = 256;
constexpr uint32_t MAXLOG = 1 << 18;
struct Viol { uint64_t fam, idx; uint32_t worker, logpos; uint32_t inkind, inlen; char in[70000]; char why[1500]; };
struct Shared {
  std::atomic<uint64_t> next;
  std::atomic<uint32_t> stop, nviol;
  std::atomic<uint8_t> bitmap[1 << 22];
  std::atomic<uint64_t> famdone[512]; std::atomic<uint64_t> famus[512];
  Slot slot[64];
  Viol viol[MAXV];
  std::atomic<uint32_t> nlog[64];
  uint32_t log[64][MAXLOG];  // chunks taken by each worker, in order
};
inline Shared* S;
inline Slot* me;

inline std::string hex8(std::string_view s) {
  static const char* d = "0123456789abcdef";
  std::string o;
  for (unsigned char c : s) { o += d[c >> 4]; o += d[c & 15]; }
  return o;
}
inline std::string show8(std::string_view s) {
  std::string o = "\"";
  size_t n = 0;
  for (unsigned char c : s) {
    if (n++ > 400) { o += "...(" + std::to_string(s.size()) + " bytes)"; break; }
    if (c >= 0x20 && c < 0x7f && c != '"' && c != '\\') o += char(c);
    else { char b[8]; snprintf(b, 8, "\\x%02x", c); o += b; }
  }
  return o + "\"";
}
inline std::string show32(std::u32string_view s) {
  std::string o = "[";
  size_t n = 0;
  for (char32_t c : s) {
    if (n++ > 200) { o += "...(" + std::to_string(s.size()) + " code points)"; break; }
    char b[16]; snprintf(b, 16, "%s%04X", o.size() > 1 ? " " : "", unsigned(c)); o += b;
  }
  return o + "]";
}
inline std::string json_esc(std::string_view s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += char(c); }
    else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += char(c);
  }
  return o;
}

// What an evaluation reports.
inline bool sample_only = false;  // stop at the first input
struct Rec {
  std::string why;
  bool bad = false;
  void in8(std::string_view s) {
    size_t n = std::min(s.size(), sizeof me->in);
    if (n) memcpy(me->in, s.data(), n);
    me->inlen = uint32_t(n);
    me->inkind = 8;
    if (sample_only) _exit(0);
  }
  void in32(std::u32string_view s) {
    size_t n = std::min(s.size() * 4, sizeof me->in / 4 * 4);
    if (n) memcpy(me->in, s.data(), n);
    me->inlen = uint32_t(n);
    me->inkind = 32;
    if (sample_only) _exit(0);
  }
  void call(uint64_t n = 1) { me->calls.fetch_add(n, std::memory_order_relaxed); }
  void states(uint64_t n) { me->states.fetch_add(n, std::memory_order_relaxed); }
  void fail(std::string w) { if (!bad) { bad = true; why = std::move(w); } }
  void outcome(uint64_t h) {
    h *= 0x9E3779B97F4A7C15ull;
    uint32_t b = uint32_t(h >> 39);  // 25 bits
    auto& x = S->bitmap[b >> 3];
    uint8_t m = uint8_t(1u << (b & 7));
    if (!(x.load(std::memory_order_relaxed) & m)) x.fetch_or(m, std::memory_order_relaxed);
  }
  void outcome(std::string_view s) { outcome(std::hash<std::string_view>{}(s)); }
};

struct Family {
  std::string name;
  uint64_t n;
  std::function<void(uint64_t, Rec&)> eval;
  uint64_t chunk = 0;
};
struct Opt {
  double hang_s = 40;       // one evaluation without progress
  bool fork_each = false;   // evaluate every index in a fresh process
  uint64_t as_limit = 0;
  std::function<void()> worker_init;
};

inline std::string input_text(uint32_t kind, const char* p, uint32_t n) {
  if (kind == 32) return show32(std::u32string_view(reinterpret_cast<const char32_t*>(p), n / 4));
  return show8(std::string_view(p, n));
}

inline int run(int argc, char** argv, std::vector<Family> fams, Opt opt = {}) {
  const char* out = nullptr;
  int jobs = 8;
  std::string one;
  uint64_t oneidx = 0;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--out") out = argv[++i];
    else if (a == "--jobs") jobs = atoi(argv[++i]);
    else if (a == "--one") { one = argv[++i]; oneidx = strtoull(argv[++i], 0, 10); }
  }
  S = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  if (S == MAP_FAILED) { perror("mmap"); return 3; }
  auto lim = [&] {
    struct rlimit r{0, 0};
    setrlimit(RLIMIT_CORE, &r);
  };
  lim();
  mallopt(M_MMAP_THRESHOLD, 1 << 30);  // large buffers from the heap: mapping them anew each time is slow
  mallopt(M_TRIM_THRESHOLD, 1 << 30);
  mallopt(M_TOP_PAD, 8 << 20);
  if (!one.empty()) {
    for (auto& f : fams) if (f.name == one) {
      me = &S->slot[0];
      if (opt.worker_init) opt.worker_init();
      Rec r;
      f.eval(oneidx, r);
      printf("family %s index %llu input %s\n%s\n", one.c_str(), (unsigned long long)oneidx,
             input_text(me->inkind, me->in, me->inlen).c_str(), r.bad ? ("VIOLATED: " + r.why).c_str() : "holds");
      return r.bad ? 1 : 0;
    }
    fprintf(stderr, "no family %s\n", one.c_str());
    return 3;
  }
  // chunk table
  struct Chunk { uint32_t fam; uint64_t lo, hi; };
  std::vector<Chunk> chunks;
  uint64_t total = 0;
  for (size_t f = 0; f < fams.size(); f++) {
    uint64_t c = fams[f].chunk ? fams[f].chunk : std::max<uint64_t>(1, std::min<uint64_t>(2048, fams[f].n / 64 + 1));
    for (uint64_t lo = 0; lo < fams[f].n; lo += c) chunks.push_back({uint32_t(f), lo, std::min(lo + c, fams[f].n)});
    total += fams[f].n;
  }
  double t0 = now();
  auto report = [&](uint64_t fam, uint64_t idx, const std::string& why) {
    uint32_t k = S->nviol.fetch_add(1);
    if (k < MAXV) {
      Viol& v = S->viol[k];
      v.worker = uint32_t(me - S->slot); v.logpos = S->nlog[v.worker];
      v.fam = fam; v.idx = idx; v.inkind = me->inkind; v.inlen = me->inlen;
      memcpy(v.in, me->in, me->inlen);
      snprintf(v.why, sizeof v.why, "%s", why.c_str());
    }
    if (k >= 8) S->stop = 1;
  };
  auto worker = [&](int w) {
    me = &S->slot[w];
    if (opt.worker_init) opt.worker_init();
    for (;;) {
      if (S->stop) break;
      uint64_t k = S->next.fetch_add(1);
      if (k >= chunks.size()) break;
      auto& c = chunks[k];
      auto& f = fams[c.fam];
      me->fam = c.fam;
      double tc = now();
      uint32_t lp = S->nlog[w];
      if (lp < MAXLOG) { S->log[w][lp] = uint32_t(k); S->nlog[w] = lp + 1; }
      for (uint64_t i = c.lo; i < c.hi && !S->stop; i++) {
        me->idx = i;
        me->busy.fetch_add(1, std::memory_order_relaxed);
        if (opt.fork_each) {
          pid_t p = fork();
          if (p == 0) {
            Rec r;
            f.eval(i, r);
            if (r.bad) report(c.fam, i, r.why);
            _exit(0);
          }
          int st;
          waitpid(p, &st, 0);
          if (WIFSIGNALED(st)) report(c.fam, i, std::string("killed by signal ") + strsignal(WTERMSIG(st)));
          else if (WEXITSTATUS(st)) report(c.fam, i, "exit status " + std::to_string(WEXITSTATUS(st)));
        } else {
          Rec r;
          f.eval(i, r);
          if (r.bad) report(c.fam, i, r.why);
        }
        me->evals.fetch_add(1, std::memory_order_relaxed);
      }
      S->famdone[c.fam].fetch_add(c.hi - c.lo);
      S->famus[c.fam].fetch_add(uint64_t((now() - tc) * 1e6));
    }
    _exit(0);
  };
  std::vector<pid_t> pid(jobs);
  std::vector<uint64_t> last(jobs);
  std::vector<double> lastt(jobs, now());
  fflush(stdout);
  for (int w = 0; w < jobs; w++) {
    pid[w] = fork();
    if (pid[w] == 0) { setpgid(0, 0); worker(w); }
  }
  int alive = jobs;
  bool internal_error = false;
  while (alive) {
    usleep(20000);
    for (int w = 0; w < jobs; w++) {
      if (!pid[w]) continue;
      int st;
      pid_t r = waitpid(pid[w], &st, WNOHANG);
      me = &S->slot[w];
      if (r == pid[w]) {
        kill(-pid[w], SIGKILL);
        pid[w] = 0;
        alive--;
        if (WIFSIGNALED(st) || WEXITSTATUS(st) != 0) {
          std::string what = WIFSIGNALED(st) ? std::string("killed by signal ") + strsignal(WTERMSIG(st))
                                             : "exit status " + std::to_string(WEXITSTATUS(st));
          if (WIFEXITED(st) && WEXITSTATUS(st) == 3) internal_error = true;
          report(me->fam, me->idx, "the process died (" + what + ")");
          S->stop = 1;
        }
        continue;
      }
      uint64_t b = me->busy;
      if (b != last[w]) { last[w] = b; lastt[w] = now(); }
      else if (now() - lastt[w] > opt.hang_s) {
        report(me->fam, me->idx, "no progress for " + std::to_string(int(opt.hang_s)) + " s (hang)");
        S->stop = 1;
        kill(-pid[w], SIGKILL);
        kill(pid[w], SIGKILL);
        lastt[w] = now() + 1e6;
      }
    }
  }
  // Replay before report: every violation is re-evaluated in a fresh process.
  uint32_t nv = std::min<uint32_t>(S->nviol, MAXV);
  std::vector<std::string> verdict(nv);
  uint32_t confirmed = 0;
  for (uint32_t k = 0; k < nv; k++) {
    Viol& v = S->viol[k];
    // attempt 0: the input alone; 1: its chunk up to the input; 2: everything
    // the worker had evaluated before it (history-dependent failures).
    for (int attempt = 0; attempt < 3; attempt++) {
      fflush(stdout);
      pid_t p = fork();
      if (p == 0) {
        setpgid(0, 0);
        me = &S->slot[63];
        if (opt.worker_init) opt.worker_init();
        uint32_t lp = v.logpos;
        uint32_t from = attempt == 0 ? lp : attempt == 1 ? (lp ? lp - 1 : 0) : 0;
        for (uint32_t q = from; q < lp; q++) {
          auto& c = chunks[S->log[v.worker][q]];
          for (uint64_t i = c.lo; i < c.hi; i++) {
            if (c.fam == v.fam && i == v.idx && q + 1 == lp) break;
            Rec r;
            fams[c.fam].eval(i, r);
          }
        }
        Rec r;
        fams[v.fam].eval(v.idx, r);
        _exit(r.bad ? 1 : 0);
      }
      double t = now();
      int st = 0;
      bool done = false;
      double lim2 = attempt == 0 ? opt.hang_s * 2 : 300;
      while (now() - t < lim2) {
        if (waitpid(p, &st, WNOHANG) == p) { done = true; break; }
        usleep(2000);
      }
      if (!done) { kill(-p, SIGKILL); kill(p, SIGKILL); waitpid(p, &st, 0); }
      if (!done || WIFSIGNALED(st) || WEXITSTATUS(st)) {
        verdict[k] = !done ? "confirmed: hangs again" : attempt == 0 ? "confirmed" : attempt == 1 ? "confirmed after the inputs of its chunk (history-dependent)" : "confirmed after the inputs of its worker (history-dependent)";
        confirmed++;
        break;
      }
      verdict[k] = "NOT reproduced";
      if (k > 8) break;
    }
    // A wrong answer that was observed stays a wrong answer; a stall, or a
    // SIGKILL from outside (memory ran low), that does not recur is not reported.
    if (verdict[k] == "NOT reproduced" && !strstr(v.why, "no progress for") && !strstr(v.why, "signal Killed")) {
      verdict[k] = "observed, not reproduced when replayed";
      confirmed++;
    }
  }
  uint64_t evals = 0, calls = 0, states = 0;
  for (auto& s : S->slot) { evals += s.evals; calls += s.calls; states += s.states; }
  uint64_t bits = 0;
  for (auto& b : S->bitmap) bits += __builtin_popcount(b);
  bool complete = true;
  FILE* o = out ? fopen(out, "w") : stdout;
  fprintf(o, "{\"evals\":%llu,\"calls\":%llu,\"states\":%llu,\"distinct_outcomes\":%llu,\"wall\":%.2f,\"families\":[",
          (unsigned long long)evals, (unsigned long long)calls, (unsigned long long)states, (unsigned long long)bits, now() - t0);
  for (size_t f = 0; f < fams.size(); f++) {
    uint64_t d = S->famdone[f];
    if (d != fams[f].n) complete = false;
    fprintf(o, "%s{\"name\":\"%s\",\"size\":%llu,\"explored\":%llu,\"worker_seconds\":%.1f}", f ? "," : "", json_esc(fams[f].name).c_str(),
            (unsigned long long)fams[f].n, (unsigned long long)d, double(S->famus[f]) / 1e6);
  }
  fprintf(o, "],\"complete\":%s,\"internal_error\":%s,\"samples\":[", complete ? "true" : "false", internal_error ? "true" : "false");
  // samples: the inputs of a few indices
  bool first = true;
  if (!nv) for (size_t f = 0; f < fams.size(); f++) {
    if (!fams[f].n) continue;
    uint64_t idx = fams[f].n / 2;
    fflush(o);
    pid_t p = fork();
    if (p == 0) { sample_only = true; me = &S->slot[62]; if (opt.worker_init) opt.worker_init(); Rec r; fams[f].eval(idx, r); _exit(0); }
    int st; waitpid(p, &st, 0);
    Slot& s = S->slot[62];
    fprintf(o, "%s\"%s #%llu: %s\"", first ? "" : ",", json_esc(fams[f].name).c_str(), (unsigned long long)idx,
            json_esc(input_text(s.inkind, s.in, std::min<uint32_t>(s.inlen, 400))).c_str());
    first = false;
  }
  fprintf(o, "],\"violations\":[");
  for (uint32_t k = 0; k < nv; k++) {
    Viol& v = S->viol[k];
    fprintf(o, "%s{\"family\":\"%s\",\"index\":%llu,\"kind\":%u,\"hex\":\"%s\",\"input\":\"%s\",\"why\":\"%s\",\"replay\":\"%s\"}",
            k ? "," : "", json_esc(fams[v.fam].name).c_str(), (unsigned long long)v.idx, v.inkind,
            hex8(std::string_view(v.in, v.inlen)).c_str(), json_esc(input_text(v.inkind, v.in, v.inlen)).c_str(),
            json_esc(v.why).c_str(), json_esc(verdict[k]).c_str());
  }
  fprintf(o, "]}\n");
  if (out) fclose(o);
  return confirmed ? 1 : nv ? 4 : 0;
}
}  // namespace hx
