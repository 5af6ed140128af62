// C18: concurrent first use. Explores every interleaving of the library's
// synchronisation operations on the real code, for small sets of threads.
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <array>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <map>
#include <set>
#include <string>
#include <vector>
#include "idna.h"
#include "sched.hpp"
using namespace sched;
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// ---- the calls a thread may make; each returns its result as text
struct Call { const char* name; std::string (*f)(); std::string want, closed; };
static std::string b(bool x) { return x ? "true" : "false"; }
static std::vector<Call> calls = {
    {"to_ascii", [] { std::string o; bool k = ada::idna::to_ascii("b\xC3\xBC" "cher.\xC3\x9F", o); return b(k) + o; }, "truexn--bcher-kva.xn--zca", "false"},
    {"to_unicode", [] { return ada::idna::to_unicode("xn--bcher-kva.example"); }, "b\xC3\xBC" "cher.example", "xn--bcher-kva.example"},
    {"map", [] { std::u32string o; bool k = ada::idna::map(U"\u00C4\uFF21", o); return b(k && o == U"\u00E4a"); }, "true", "false"},
    {"normalize", [] { std::u32string s = U"u\u0308"; bool k = ada::idna::normalize(s); return b(k && s == U"\u00FC"); }, "true", "false"},
    {"is_already_nfc", [] { return b(ada::idna::is_already_nfc(U"\u00FC\u0323a") ) + b(ada::idna::is_already_nfc(U"\u00FCber")); }, "falsetrue", "falsefalse"},
    {"is_label_valid", [] { return b(ada::idna::is_label_valid(U"\u05D0\u05D1")) + b(ada::idna::is_label_valid(U"\u0301x")); }, "truefalse", "falsefalse"},
    {"valid_name_code_point", [] { return b(ada::idna::valid_name_code_point(0x3B1, true)) + b(ada::idna::valid_name_code_point(0x2000, false)); }, "truefalse", "falsefalse"},
    {"to_ascii (ASCII)", [] { return ada::idna::to_ascii("WWW.example"); }, "www.example", "www.example"},
};
struct Scenario { std::string name; std::vector<std::vector<int>> prog; bool oom; uint64_t patience; };

int main(int argc, char** argv) {
  const char* out = nullptr;
  std::string one_name, only;
  std::vector<int> one_sched;
  for (int i = 1; i < argc; i++) {
    if (!strcmp(argv[i], "--out")) out = argv[++i];
    else if (!strcmp(argv[i], "--only")) only = argv[++i];
    else if (!strcmp(argv[i], "--one")) { one_name = argv[++i]; for (char c : std::string(argv[++i])) if (c >= '1' && c <= '9') one_sched.push_back(c - '0'); }
  }
  const char* tier = getenv("VERIF_TIER");
  bool th = tier && !strcmp(tier, "thorough");
  struct rlimit rl{0, 0};
  setrlimit(RLIMIT_CORE, &rl);
  std::vector<Scenario> sc;
  auto nm = [](const std::vector<std::vector<int>>& p) { std::string s; for (auto& t : p) { if (!s.empty()) s += " || "; for (size_t k = 0; k < t.size(); k++) s += (k ? "; " : "") + std::string(calls[t[k]].name); } return s; };
  auto addp = [&](std::vector<std::vector<int>> p, bool oom = false, uint64_t pat = 1) { sc.push_back({nm(p) + (oom ? " [table allocation fails]" : "") + (pat > 10 ? " [waiting thread spins " + std::to_string(pat) + " times]" : ""), p, oom, pat}); };
  int n = 7;
  for (int a = 0; a < n; a++) for (int c = a; c < n; c++) addp({{a}, {c}});
  for (int a = 0; a < n; a++) addp({{a, (a + 1) % n}, {(a + 2) % n, a}});
  addp({{7, 0}, {0, 7}});
  addp({{2}, {2}, {2}});
  addp({{2}, {3}, {5}});
  for (int a = 0; a < n; a++) addp({{a}, {(a + 1) % n}}, true);
  addp({{2}, {3}, {6}}, true);
  addp({{2, 0}, {3, 1}}, true);
  for (int a = 0; a < n; a += th ? 1 : 2) addp({{2}, {a}}, false, th ? 6000000 : 1500000);
  if (th) {
    for (int a = 0; a < n; a++) for (int c = a; c < n; c++) for (int e = c; e < n; e++) if (!(a == 2 && (c == 2 && e == 2 || c == 3 && e == 5))) addp({{a}, {c}, {e}});
    for (int a = 0; a < n; a++) for (int c = a; c < n; c++) addp({{a, c}, {c, a}});
    for (int a = 0; a < n; a++) for (int c = a; c < n; c++) addp({{a}, {c}}, true);
  }
  // Depth-first exploration with dynamic partial-order reduction and sleep
  // sets: one stack per scenario, one scenario per worker at a time.
  struct SNode { uint8_t enabled, chosen, nt, sleep, done, back; Op op[MAXT]; };
  struct Search { std::vector<SNode> st; bool started = false, finished = false; int bound = -1; uint64_t execs = 0, since = 0; };
  std::vector<Search> se(sc.size());
  std::deque<int> q;  // scenarios waiting for a worker, the widest first
  for (int w = 4; w >= 2; w--)
    for (int i = 0; i < int(sc.size()); i++) {
      if (int(sc[i].prog.size()) != w) continue;
      if (one_name.empty() ? (only.empty() || sc[i].name == only) : sc[i].name == one_name) q.push_back(i);
    }
  if (q.empty()) { fprintf(stderr, "no scenario\n"); return 3; }
  const int J = 8;
  Log* logs = static_cast<Log*>(mmap(nullptr, sizeof(Log) * J, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  struct Slot { pid_t pid = 0; int s = -1; double t0; std::vector<uint8_t> prefix; uint8_t sleep; } slot[J];
  uint64_t execs = 0, redundant = 0, steps = 0, spun = 0, injected_execs = 0, maxlen = 0;
  std::set<uint64_t> states;
  struct V { std::string scen, why, sched; };
  std::vector<V> vio;
  std::string err;
  // Code that synchronises on every call has too many interleavings. A search
  // that reaches the cap starts over with a preemption bound, and says so.
  uint64_t cap = th ? 400000 : 4000;
  auto sched_text = [&](Log& L) { std::string s; for (uint32_t i = 0; i < L.nnodes && i < MAXNODES; i++) s += char('0' + L.node[i].chosen); return s; };
  double t_start = now();
  auto run_child = [&](Log* L, const Scenario& S) {
    if (S.oom) fail_alloc_over = 65536;
    std::vector<std::function<void()>> bodies;
    std::vector<std::vector<std::string>> res(S.prog.size());
    for (size_t t = 0; t < S.prog.size(); t++)
      bodies.push_back([&, t] { for (int c : S.prog[t]) res[t].push_back(calls[c].f()); });
    sched::run(L, bodies);
    for (size_t t = 0; t < S.prog.size(); t++)
      for (size_t k = 0; k < S.prog[t].size(); k++) {
        auto& c = calls[S.prog[t][k]];
        auto& g = res[t][k];
        if (g == c.want) continue;
        if (injected && g == c.closed) continue;
        sched::fail("thread %zu: %s returned \"%s\", expected \"%s\"%s", t + 1, c.name, g.c_str(), c.want.c_str(), S.oom ? " or the failure result" : "");
      }
    // and once everything has settled, sequential use gives the same
    for (size_t k = 0; k < calls.size(); k++) {
      std::string g = calls[k].f();
      if (g != calls[k].want && !(injected && g == calls[k].closed)) sched::fail("after all threads ended, %s returns \"%s\"", calls[k].name, g.c_str());
    }
    _exit(0);
  };
  // what the finished execution in L adds to the search S
  auto absorb = [&](Search& S, Log& L, size_t plen) {
    uint32_t n = L.nnodes, m = n + (L.redundant ? 1 : 0);  // the stopped state has pending operations too
    S.st.resize(plen);
    for (uint32_t i = uint32_t(plen); i < n; i++) {
      Node& x = L.node[i];
      SNode y{x.enabled, x.chosen, x.nt, x.sleep, uint8_t(1u << x.chosen), uint8_t(S.bound >= 0 ? x.enabled : 1u << x.chosen), {}};
      memcpy(y.op, x.op, sizeof y.op);
      S.st.push_back(y);
    }
    if (S.bound >= 0) return;
    // race analysis: clock[t][u] = number of steps of u that happen before t's next
    std::vector<std::array<int, MAXT>> at(n);   // clock of each executed step
    std::vector<int> idx(n);                     // ordinal of the step within its thread
    std::array<std::array<int, MAXT>, MAXT> cl{};
    std::array<int, MAXT> cnt{};
    for (uint32_t i = 0; i < m; i++) {
      Node& x = L.node[i];
      for (int p = 1; p <= x.nt; p++) {
        {
          // last earlier step that conflicts with p's pending operation and is not ordered before it
          for (int j = int(std::min(i, n)) - 1; j >= 0; j--) {
            Node& y = L.node[j];
            int u = y.chosen;
            if (u == p || independent(y.op[u], x.op[p])) continue;
            if (x.op[p].kind == kBegin) break;
            if (idx[j] <= cl[p][u]) break;  // already ordered
            SNode& z = S.st[j];
            if (z.enabled >> p & 1) z.back |= uint8_t(1u << p); else z.back |= z.enabled;
            break;
          }
        }
      }
      if (i == n) break;
      int p = x.chosen;
      auto c = cl[p];
      for (uint32_t j = 0; j < i; j++) {
        Node& y = L.node[j];
        int u = y.chosen;
        if (u == p || idx[j] <= c[u] || independent(y.op[u], x.op[p])) continue;
        for (int k = 0; k < MAXT; k++) c[k] = std::max(c[k], at[j][k]);
      }
      c[p] = ++cnt[p];
      idx[i] = cnt[p];
      at[i] = c;
      cl[p] = c;
    }
  };
  // picks the next prefix of the search, or ends it
  auto advance = [&](Search& S, std::vector<uint8_t>& prefix, uint8_t& sleep) {
    int want = now() - t_start > (th ? 5400 : 450) ? 0 : now() - t_start > (th ? 3600 : 240) ? 1 : S.since > cap ? (S.bound < 0 ? 2 : S.bound - 1) : -1;
    if (want >= 0 && (S.bound < 0 || want < S.bound)) {
      S.bound = want;
      S.since = 0;
      S.st.clear();
      prefix.clear();
      sleep = 0;
      return true;
    }
    while (!S.st.empty()) {
      SNode& z = S.st.back();
      uint8_t cand = uint8_t(z.back & z.enabled & ~z.done & ~z.sleep);
      if (S.bound >= 0) {
        int pre = 0;
        for (size_t i = 1; i + 1 < S.st.size(); i++) pre += S.st[i].chosen != S.st[i - 1].chosen && (S.st[i].enabled >> S.st[i - 1].chosen & 1);
        if (pre >= S.bound && S.st.size() > 1) { int c = S.st[S.st.size() - 2].chosen; if (z.enabled >> c & 1) cand &= uint8_t(1u << c); }
      }
      if (!cand) { S.st.pop_back(); continue; }
      int a = __builtin_ctz(cand);
      uint8_t asleep = uint8_t(z.sleep | z.done), w = 0;
      if (S.bound < 0) for (int u = 1; u <= z.nt; u++) if ((asleep >> u & 1) && independent(z.op[u], z.op[a])) w |= uint8_t(1u << u);
      z.chosen = uint8_t(a);
      z.done |= uint8_t(1u << a);
      prefix.clear();
      for (auto& y : S.st) prefix.push_back(y.chosen);
      sleep = w;
      return true;
    }
    S.finished = true;
    return false;
  };
  int busy = 0;
  for (;;) {
    for (int k = 0; k < J; k++) {
      if (slot[k].pid || vio.size() >= 5 || !err.empty()) continue;
      Slot& sl = slot[k];
      for (;;) {
        if (sl.s < 0) {
          if (q.empty()) break;
          sl.s = q.front();
          q.pop_front();
        }
        Search& S = se[sl.s];
        if (!S.started) {
          S.started = true;
          sl.prefix.assign(one_sched.begin(), one_sched.end());
          sl.sleep = 0;
          break;
        }
        if (one_name.empty() && advance(S, sl.prefix, sl.sleep)) break;
        sl.s = -1;
      }
      if (sl.s < 0) continue;
      Log& L = logs[k];
      memset(&L, 0, offsetof(Log, node));
      memset(L.why, 0, sizeof L.why);
      L.nprefix = uint32_t(sl.prefix.size());
      memcpy(L.prefix, sl.prefix.data(), sl.prefix.size());
      L.start_sleep = sl.sleep;
      L.patience = sc[sl.s].patience;
      fflush(stdout);
      pid_t p = fork();
      if (p == 0) run_child(&L, sc[sl.s]);
      sl.pid = p;
      sl.t0 = now();
      busy++;
    }
    if (!busy) break;
    // wait for one
    int st = 0, k = -1;
    for (;;) {
      for (int j = 0; j < J; j++) if (slot[j].pid) {
        pid_t r = waitpid(slot[j].pid, &st, WNOHANG);
        if (r == slot[j].pid) { k = j; break; }
        if (now() - slot[j].t0 > 120) { kill(slot[j].pid, SIGKILL); waitpid(slot[j].pid, &st, 0); k = j; st = -1; break; }
      }
      if (k >= 0) break;
      usleep(200);
    }
    slot[k].pid = 0;
    busy--;
    Log& L = logs[k];
    int si = slot[k].s;
    Search& S = se[si];
    execs++;
    S.execs++;
    S.since++;
    steps += L.steps;
    spun += L.spins;
    if (L.nnodes > maxlen) maxlen = L.nnodes;
    if (sc[si].oom) injected_execs++;
    if (L.violated == 2) { err = L.why; continue; }
    if (L.violated) vio.push_back({sc[si].name, L.why, sched_text(L)});
    else if (st == -1) vio.push_back({sc[si].name, "the threads make no progress (120 s)", sched_text(L)});
    else if (!WIFEXITED(st) || WEXITSTATUS(st)) vio.push_back({sc[si].name, std::string("the process died: ") + (WIFSIGNALED(st) ? strsignal(WTERMSIG(st)) : "exit status"), sched_text(L)});
    if (L.violated || st) { slot[k].s = -1; continue; }  // one violation per scenario is enough
    if (L.redundant) redundant++;
    else if (!L.done) err = "execution ended early";
    if (getenv("SCHED_TRACE")) {
      printf("prefix ");
      for (auto x : slot[k].prefix) printf("%d", x);
      printf(" sleep %x:", slot[k].sleep);
      for (uint32_t i = 0; i < L.nnodes; i++) { printf(" %d(en%x z%x", L.node[i].chosen, L.node[i].enabled, L.node[i].sleep); for (int t = 1; t <= L.node[i].nt; t++) printf(" %c%lx", "BLSRluywWFE"[L.node[i].op[t].kind], (unsigned long)L.node[i].op[t].addr & 0xfff); printf(")"); }
      printf(" %s\n", L.redundant ? "redundant" : "");
    }
    uint64_t h = uint64_t(si) * 0x9E3779B97F4A7C15ull;
    std::vector<int> cnt(MAXT);
    for (uint32_t i = 0; i < L.nnodes; i++) {
      uint64_t g = h;
      for (int t = 1; t <= L.node[i].nt; t++) g = (g ^ (uint64_t(cnt[t]) * 131 + L.node[i].op[t].kind * 7 + (L.node[i].enabled >> t & 1))) * 0x100000001B3ull;
      states.insert(g);
      cnt[L.node[i].chosen]++;
    }
    if (one_name.empty()) absorb(S, L, slot[k].prefix.size());
    if (S.bound == 0 && S.since > 100 * cap) err = "more than " + std::to_string(100 * cap) + " executions for " + sc[si].name;
  }
  if (one_name.empty() && err.empty() && vio.empty()) for (size_t i = 0; i < sc.size(); i++) if (se[i].started && !se[i].finished) err = "search not finished: " + sc[i].name;
  FILE* o = out ? fopen(out, "w") : stdout;
  auto esc = [](const std::string& s) { std::string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += char(c); } else if (c < 32 || c > 126) { char x[8]; snprintf(x, 8, "\\u%04x", c); r += x; } else r += char(c); } return r; };
  fprintf(o, "{\"executions\":%llu,\"redundant\":%llu,\"steps\":%llu,\"states\":%zu,\"longest\":%llu,\"idle_spins\":%llu,\"wall\":%.2f,\"error\":\"%s\",\"scenarios\":[", (unsigned long long)execs, (unsigned long long)redundant, (unsigned long long)steps, states.size(), (unsigned long long)maxlen, (unsigned long long)spun, now() - t_start, esc(err).c_str());
  for (size_t i = 0; i < sc.size(); i++) fprintf(o, "%s{\"name\":\"%s\",\"executions\":%llu,\"preemption_bound\":%d}", i ? "," : "", esc(sc[i].name).c_str(), (unsigned long long)se[i].execs, se[i].bound);
  fprintf(o, "],\"violations\":[");
  for (size_t i = 0; i < vio.size(); i++) fprintf(o, "%s{\"scenario\":\"%s\",\"why\":\"%s\",\"schedule\":\"%s\"}", i ? "," : "", esc(vio[i].scen).c_str(), esc(vio[i].why).c_str(), vio[i].sched.c_str());
  fprintf(o, "]}\n");
  if (out) fclose(o);
  if (!one_name.empty()) return vio.empty() ? 0 : 1;
  return vio.size() ? 1 : err.size() ? 3 : 0;
}
