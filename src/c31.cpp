// C31: results depend on the arguments alone, not on the state of the process
// around the call (locale, rounding mode, stack size, contents of fresh memory,
// environment variables, descriptors, signals, an exception under way), and the
// library leaves that state as it was. One process per environment, in which
// every input is given to every operation.
#include "harness.hpp"
#include "gen.hpp"
#include "idna.h"
#include <cfenv>
#include <clocale>
#include <csignal>
#include <dirent.h>
#include <fcntl.h>
#include <linux/audit.h>
#include <linux/filter.h>
#include <linux/seccomp.h>
#include <locale>
#include <pthread.h>
#include <sched.h>
#include <stddef.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <thread>
#include <xmmintrin.h>
using namespace gen;
extern char** environ;

static uint64_t H(std::string_view s, uint64_t h = 1469598103934665603ull) {
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
  return h ^ (h >> 29);
}
static uint64_t H32(std::u32string_view s) { return H({reinterpret_cast<const char*>(s.data()), s.size() * 4}); }
static constexpr unsigned NOP = 11;
static const char* const opname[NOP] = {"to_ascii", "to_ascii (value)", "to_unicode", "ascii_map", "map", "normalize", "is_already_nfc",
                                        "is_label_valid", "Punycode", "scans", "transcoding"};
struct In { std::string name, s; std::u32string w; };
static std::vector<In> inputs;
static size_t nsmall, nreg;  // the first nsmall are short, then long ones up to nreg, then huge ones
// One operation on one input; w is the input as code points.
[[gnu::noinline]] static uint64_t op(unsigned k, std::string_view s, std::u32string_view w) {
  namespace A = ada::idna;
  switch (k) {
    case 0: { std::string o = "old"; bool b = A::to_ascii(s, o); return H(o) * 2 + b; }
    case 1: return H(A::to_ascii(s));
    case 2: { std::string o = "old"; bool b = A::to_unicode(s, o); return H(o) * 2 + b; }
    case 3: { std::string o(s); A::ascii_map(o.data(), o.size()); return H(o); }
    case 4: { std::u32string o = U"old"; bool b = A::map(w, o); return b ? H32(o) : 1; }
    case 5: { std::u32string o(w); bool b = A::normalize(o); return b ? H32(o) : 1; }
    case 6: return A::is_already_nfc(w);
    case 7: { uint64_t h = A::is_label_valid(w); for (size_t i = 0; i < w.size() && i < 8; i++) h = h * 4 + A::valid_name_code_point(w[i], true) * 2u + A::valid_name_code_point(w[i], false); return h; }
    case 8: { std::string o = "old"; bool b = A::utf32_to_punycode(w, o); std::u32string u = U"old"; bool c = A::punycode_to_utf32(s, u); return (b ? H(o) : 1) * 8 + (c ? H32(u) * 4 : 0) + (A::verify_punycode(s) ? 1 : 0); }
    case 9: return A::contains_forbidden_domain_code_point(s) * 4u + A::is_ascii(s) * 2u + A::is_ascii(w);
    case 10: {
      size_t n = A::utf32_length_from_utf8(s.data(), s.size());
      std::u32string u(s.size() + 1, 0);
      size_t m = A::utf8_to_utf32(s.data(), s.size(), u.data());
      u.resize(m);
      size_t l = A::utf8_length_from_utf32(u.data(), m);
      std::string b(l, 0);
      size_t q = A::utf32_to_utf8(u.data(), m, b.data());
      return H32(u) + n * 31 + l * 131 + q * 1031 + H(b) * 3;
    }
  }
  return 0;
}
static uint64_t op(unsigned k, const In& in) { return op(k, in.s, in.w); }
static uint64_t* want;  // [input][op], from a process of its own
// Which operations an input is given to: huge ones only to those without a limit or that refuse it.
static bool applies(unsigned k, size_t i) { return i < nreg || (k != 8 && k != 5 && k != 7); }
static std::string wrong;
static void pass(size_t lo, size_t hi, unsigned k0 = 0, unsigned k1 = NOP) {
  for (size_t i = lo; i < hi && wrong.empty(); i++)
    for (unsigned k = k0; k < k1; k++)
      if (applies(k, i) && op(k, inputs[i]) != want[i * NOP + k]) { wrong = std::string(opname[k]) + " on " + inputs[i].name + " gives another result"; return; }
}
static void add(std::string name, std::string s) {
  In x;
  x.name = std::move(name);
  auto d = ref::utf8_decode(s);
  if (d) x.w = *d; else for (unsigned char c : s) x.w.push_back(c);
  x.s = std::move(s);
  inputs.push_back(std::move(x));
}
static void make_inputs() {
  for (int b = 0; b < 256; b++) {
    std::string c(1, char(b));
    for (auto& [p, q] : std::vector<std::pair<std::string, std::string>>{{"", ""}, {"a", "b"}, {"\xC3\x9F", ""}, {"xn--", "-tda"}}) { std::string s = p + c + q; add(hx::show8(s), s); }
  }
  auto& al = domain_alphabet();
  Words w(al.size(), 2);
  for (uint64_t i = 0; i < w.total; i++) { U32 s; for (auto k : w.get(i)) s += al[k]; auto t = u8(s); if (i <= al.size() || i % 3 == 0) add(hx::show8(t), t); }
  for (auto& l : label_alphabet()) { add(hx::show8(l), l); add(hx::show8(l + ".I"), l + ".I"); }
  auto reps = interesting();
  for (size_t i = 0; i < reps.size(); i += 2) { auto t = u8(U32(1, reps[i]) + U"I"); add(hx::show8(t), t); }
  nsmall = inputs.size();
  for (size_t k = 0; k < NPATTERN; k++) for (uint32_t n : {63u, 64u, 250u, 1000u, 4000u}) add("pattern " + std::to_string(k) + " x " + std::to_string(n), pattern(k, n));
  for (uint32_t n : {100u, 2000u, 8000u}) { std::string s; for (uint32_t j = 0; j < n; j++) s += j % 2 ? "\xCC\x81" : "\xCC\xA3"; add("marks x " + std::to_string(n), "e" + s); }
  for (uint32_t n : {100u, 2000u}) { std::string s; for (uint32_t j = 0; j < n; j++) s += "xn--tda."; add("labels x " + std::to_string(n), s); }
  for (uint32_t n : {100u, 900u}) { std::string s; for (uint32_t j = 0; j < n; j++) s += "\xEF\xB7\xBA"; add("FDFA x " + std::to_string(n), s); }
  nreg = inputs.size();
  for (uint32_t n : {1u << 17, 1u << 20}) for (auto& x : {"I", "\xC3\x84", "\xE1\x84\x80"}) { std::string s; while (s.size() < n) s += x; add(std::string(hx::show8(x)) + " up to " + std::to_string(n) + " bytes", s); }
}

// ---- the state of the process
static std::vector<std::string> locs;  // names for setlocale
struct Hostile : std::ctype<char> {
  std::ctype_base::mask t[table_size];
  Hostile() : std::ctype<char>(t) { for (auto& m : t) m = std::ctype_base::alpha | std::ctype_base::space | std::ctype_base::digit; }
  char do_tolower(char c) const override { return char(c + 1); }
  char do_toupper(char c) const override { return char(c + 2); }
  const char* do_tolower(char* b, const char* e) const override { for (char* p = b; p < e; p++) *p += 1; return e; }
};
struct Punct : std::numpunct<char> {
  char do_decimal_point() const override { return 'x'; }
  char do_thousands_sep() const override { return '-'; }
  std::string do_grouping() const override { return "\1"; }
};
static uint64_t list_hash(const char* dir, size_t* count = nullptr) {
  DIR* d = opendir(dir);
  if (!d) return 0;
  uint64_t h = 0;
  size_t n = 0;
  while (auto* e = readdir(d)) {
    if (e->d_name[0] == '.') continue;
    if (atoi(e->d_name) == dirfd(d) && strstr(dir, "fd")) continue;
    char t[512], l[4096];
    snprintf(t, sizeof t, "%s/%s", dir, e->d_name);
    ssize_t q = strstr(dir, "fd") ? readlink(t, l, sizeof l) : 0;
    h += H(std::string(e->d_name) + "=" + std::string(l, q > 0 ? size_t(q) : 0));
    n++;
  }
  closedir(d);
  if (count) *count = n;
  return h;
}
struct State {
  std::string locale, cxxlocale;
  int round;
  uint64_t sigs, envh, fds, files, umask_, mxcsr;
  char** env;
  size_t threads;
  std::terminate_handler term;
  std::new_handler nh;
  std::string cwd;
  locale_t tl;
  rlim_t lim;
  int uncaught;
};
static std::string scratch;
static State look() {
  State s;
  s.locale = setlocale(LC_ALL, nullptr);
  s.cxxlocale = std::locale().name() + (std::use_facet<std::ctype<char>>(std::locale()).tolower('A') == 'B' ? "!" : "");
  s.tl = uselocale(locale_t(0));
  s.round = fegetround();
  s.mxcsr = _mm_getcsr() & ~0x3Fu;
  s.sigs = 0;
  sigset_t m;
  pthread_sigmask(SIG_SETMASK, nullptr, &m);
  for (int g = 1; g < 65; g++) {
    struct sigaction a{};
    if (sigaction(g, nullptr, &a) == 0) s.sigs = s.sigs * 31 + uint64_t(a.sa_handler) + uint64_t(a.sa_flags) + uint64_t(sigismember(&m, g)) * 7;
  }
  s.env = environ;
  s.envh = 0;
  if (environ) for (char** e = environ; *e; e++) s.envh = s.envh * 31 + H(*e);
  s.umask_ = umask(0);
  umask(mode_t(s.umask_));
  struct rlimit r;
  getrlimit(RLIMIT_STACK, &r);
  s.lim = r.rlim_cur;
  s.term = std::get_terminate();
  s.nh = std::get_new_handler();
  char buf[4096];
  s.cwd = getcwd(buf, sizeof buf) ? buf : "?";
  s.fds = list_hash("/proc/self/fd");
  s.files = list_hash(scratch.c_str());
  s.threads = 0;
  list_hash("/proc/self/task", &s.threads);
  s.uncaught = std::uncaught_exceptions();
  return s;
}
static std::string diff(const State& a, const State& b) {
  if (a.tl != b.tl || a.locale != b.locale || a.cxxlocale != b.cxxlocale) return "the locale";
  if (a.round != b.round || a.mxcsr != b.mxcsr) return "the floating-point modes";
  if (a.sigs != b.sigs) return "signal handlers or the signal mask";
  if (a.env != b.env || a.envh != b.envh) return "environment variables";
  if (a.umask_ != b.umask_) return "the file creation mask";
  if (a.lim != b.lim) return "a resource limit";
  if (a.term != b.term || a.nh != b.nh) return "the terminate or new handler";
  if (a.cwd != b.cwd) return "the working directory";
  if (a.fds != b.fds) return "open file descriptors";
  if (a.files != b.files) return "files in the working directory";
  if (a.threads != b.threads) return "the number of threads";
  if (a.uncaught != b.uncaught) return "exceptions under way";
  return "";
}
[[gnu::noinline]] static void dirty_stack(int byte) {
  char a[49152];
  memset(a, byte, sizeof a);
  asm volatile("" ::"r"(a) : "memory");
}
// In a child: body() sets the environment up and makes the calls; a result or "" comes back.
static void in_child(hx::Rec& r, const std::function<void()>& body) {
  int p[2];
  while (pipe2(p, O_CLOEXEC)) usleep(10000);
  fflush(nullptr);
  pid_t c;
  while ((c = fork()) < 0) usleep(10000);
  if (c == 0) {
    int fd = fcntl(p[1], F_DUPFD_CLOEXEC, 200);
    close(p[0]); close(p[1]);
    wrong.clear();
    body();
    if (fd >= 0) { std::string m = wrong.empty() ? "ok" : wrong; (void)!write(fd, m.data(), std::min<size_t>(m.size(), 1000)); }
    _exit(0);
  }
  close(p[1]);
  std::string m;
  char b[1024];
  ssize_t q;
  while ((q = read(p[0], b, sizeof b)) > 0) m.append(b, size_t(q));
  close(p[0]);
  int st;
  waitpid(c, &st, 0);
  if (WIFSIGNALED(st)) r.fail(WTERMSIG(st) == SIGSYS ? "the library makes a system call that reaches outside the process" : "the process dies: " + std::string(strsignal(WTERMSIG(st))));
  else if (m.rfind("harness:", 0) == 0) hx::me->calls.fetch_sub(1);  // this environment cannot be set up here
  else if (m != "ok") r.fail(m.empty() ? "the process ends early, status " + std::to_string(WEXITSTATUS(st)) : m);
  r.outcome(H(m));
}
static std::atomic<uint64_t> ticks{0};
static void tick(int) { ticks++; }
static unsigned small_stack = 128 << 10;
static void on_thread(size_t stack, const std::function<void()>& f) {
  pthread_attr_t a;
  pthread_attr_init(&a);
  pthread_attr_setstacksize(&a, stack);
  pthread_t t;
  auto tramp = [](void* p) -> void* { (*static_cast<const std::function<void()>*>(p))(); return nullptr; };
  if (pthread_create(&t, &a, tramp, const_cast<void*>(static_cast<const void*>(&f)))) { wrong = "harness: no thread"; return; }
  pthread_join(t, nullptr);
}
static const std::vector<const char*> locway = {"setlocale", "uselocale", "std::locale::global"};
static bool set_locale(unsigned l, unsigned way) {
  if (l == locs.size()) {  // facets of the program's own
    std::locale::global(std::locale(std::locale(std::locale(), new Hostile), new Punct));
    return true;
  }
  if (way == 0) return setlocale(LC_ALL, locs[l].c_str()) != nullptr;
  if (way == 1) { locale_t x = newlocale(LC_ALL_MASK, locs[l].c_str(), nullptr); if (!x) return false; uselocale(x); return true; }
  try { std::locale::global(std::locale(locs[l].c_str())); } catch (...) { return false; }
  return true;
}
static const char* const rounds[] = {"to nearest", "upward", "downward", "toward zero", "flush to zero"};
static void set_round(unsigned k) {
  static const int m[] = {FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO};
  if (k < 4) fesetround(m[k]);
  else _mm_setcsr(_mm_getcsr() | 0x8040);
}
static const int perturb[] = {0, 0xFF, 0xA5, 0x01};
static char* hostile_env[] = {(char*)"LC_ALL=tr_TR", (char*)"LANG=tr_TR", (char*)"ADA_IDNA=1", (char*)"IDNA_DEBUG=1", (char*)"HOME=/nonexistent", (char*)"TMPDIR=/nonexistent", (char*)"=", (char*)"ICU_DATA=/x", (char*)"TZ=Asia/Tokyo", nullptr};
static char* no_env[] = {nullptr};
static const char* const envs[] = {"as it is", "empty", "hostile", "cleared", "with every variable set to 1", "with every variable set to 0", "as it is and clocks that jump an hour at every look", "as it is and clocks that stand still"};
// Calls of getenv by the library come here: what it asks for cannot be known in advance.
static const char* every_variable = nullptr;
extern "C" char* getenv(const char* n) noexcept {
  if (every_variable) return const_cast<char*>(every_variable);
  size_t l = strlen(n);
  for (char** e = environ; e && *e; e++) if (!strncmp(*e, n, l) && (*e)[l] == '=') return *e + l + 1;
  return nullptr;
}
static int clocks = 0;  // 1: an hour later at every look, 2: standing still
static time_t hour = 1000000;
extern "C" int clock_gettime(clockid_t id, timespec* t) noexcept {
  if (!clocks) return int(syscall(SYS_clock_gettime, id, t));
  if (clocks == 1) hour += 3600;
  t->tv_sec = hour;
  t->tv_nsec = 0;
  return 0;
}
extern "C" time_t time(time_t* t) noexcept { timespec x; clock_gettime(CLOCK_REALTIME, &x); if (t) *t = x.tv_sec; return x.tv_sec; }
extern "C" int gettimeofday(timeval* t, void*) noexcept { timespec x; clock_gettime(CLOCK_REALTIME, &x); t->tv_sec = x.tv_sec; t->tv_usec = x.tv_nsec / 1000; return 0; }
extern "C" clock_t clock() noexcept { timespec x; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &x); return x.tv_sec * CLOCKS_PER_SEC + x.tv_nsec / 1000; }
extern "C" char* secure_getenv(const char* n) noexcept { return getenv(n); }
static void set_env(unsigned k) { if (k == 1) environ = no_env; else if (k == 2) environ = hostile_env; else if (k == 3) clearenv(); else if (k == 4) every_variable = "1"; else if (k == 5) every_variable = "0"; else if (k >= 6) clocks = int(k) - 5; }
// descriptors and files
static const char* const fdsn[] = {"as they are", "0-2 closed", "all closed and none allowed", "0-2 full and broken"};
static void set_fds(unsigned k, int keep) {
  if (k == 1) { close(0); close(1); close(2); }
  if (k == 2) {
    for (int f = 0; f < 256; f++) if (f != keep) close(f);
    struct rlimit r{0, 0};
    setrlimit(RLIMIT_NOFILE, &r);
  }
  if (k == 3) {
    int f = open("/dev/full", O_RDWR);
    if (f >= 0) { dup2(f, 0); dup2(f, 1); dup2(f, 2); }
  }
}
// Only system calls that stay within the process.
static bool restrict_calls() {
  static const int deny[] = {SYS_open, SYS_openat, SYS_creat, SYS_socket, SYS_connect, SYS_unlink, SYS_unlinkat, SYS_rename, SYS_execve, SYS_fork, SYS_vfork,
                             SYS_kill, SYS_write, SYS_writev, SYS_read, SYS_readv, SYS_pread64, SYS_pwrite64, SYS_sendto, SYS_sendmsg, SYS_recvfrom, SYS_stat, SYS_lstat, SYS_newfstatat,
                             SYS_access, SYS_faccessat, SYS_readlink, SYS_readlinkat, SYS_chdir, SYS_mkdir, SYS_rt_sigaction, SYS_rt_sigprocmask, SYS_setitimer, SYS_alarm,
                             SYS_clone, SYS_clone3, SYS_setrlimit, SYS_umask, SYS_pipe, SYS_pipe2, SYS_dup, SYS_dup2, SYS_poll, SYS_select, SYS_epoll_create1, SYS_memfd_create,
                             SYS_shmget, SYS_msgget, SYS_semget, SYS_getcwd, SYS_sched_setaffinity, SYS_setpriority, SYS_ioctl};
  std::vector<sock_filter> f;
  f.push_back(BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(seccomp_data, nr)));
  for (int d : deny) {
    f.push_back(BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, unsigned(d), 0, 1));
    f.push_back(BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_KILL_PROCESS));
  }
  f.push_back(BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW));
  sock_fprog p{static_cast<unsigned short>(f.size()), f.data()};
  if (prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0)) return false;
  return prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &p) == 0;
}
static size_t in_handler_input;
static unsigned in_handler_op;
static void handler(int) { pass(in_handler_input, in_handler_input + 1, in_handler_op, in_handler_op + 1); }
struct Unwinding { size_t lo, hi; ~Unwinding() { pass(lo, hi); } };

int main(int argc, char** argv) {
  bool th = thorough();
  ref::load(REFDATA);
  make_inputs();
  const size_t N = inputs.size();
  want = static_cast<uint64_t*>(mmap(nullptr, N * NOP * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  {
    pid_t p = fork();
    if (p == 0) {
      for (size_t i = 0; i < N; i++) for (unsigned k = 0; k < NOP; k++) if (applies(k, i)) want[i * NOP + k] = op(k, inputs[i]);
      _exit(0);
    }
    int st;
    waitpid(p, &st, 0);
    if (st) { fprintf(stderr, "the operations fail in the neutral environment (%d)\n", st); }
  }
  char cwd[4096];
  scratch = std::string(getcwd(cwd, sizeof cwd)) + "/scratch";
  mkdir(scratch.c_str(), 0700);
  for (auto* l : {"C", "C.utf8", "tr_TR.ISO-8859-9", "tr_TR.UTF-8", "de_DE.ISO-8859-1", "ja_JP.SJIS"}) {
    locale_t x = newlocale(LC_ALL_MASK, l, nullptr);
    if (x) { locs.push_back(l); freelocale(x); }
  }
  const size_t NL = locs.size() + 1;
  std::vector<hx::Family> f;
  auto lname = [=](size_t l) { return l < locs.size() ? locs[l] : std::string("facets of the program"); };
  std::string nin = std::to_string(N) + " inputs x " + std::to_string(NOP) + " operations";
  // every combination of the settings of a process
  {
    const uint64_t n = NL * 5 * 4 * 2 * 2 * (th ? 3 : 1);
    f.push_back({"every locale (" + std::to_string(NL) + ") x rounding (5) x contents of fresh and freed memory (4) x stack (2) x tables initialised before or in it" + (th ? " x way the locale is set (3)" : "") + ", " + nin, n, [=](uint64_t i, hx::Rec& r) {
                   unsigned st = i % 2; i /= 2;
                   unsigned before = i % 2; i /= 2;
                   unsigned pt = i % 4; i /= 4;
                   unsigned rd = i % 5; i /= 5;
                   unsigned l = unsigned(i % NL); i /= NL;
                   unsigned way = th ? unsigned(i) : (l + rd + pt) % 3;
                   r.in8("locale " + lname(l) + " by " + locway[way] + ", rounding " + rounds[rd] + ", memory filled with " + std::to_string(perturb[pt]) + (st ? ", stack of 128 KiB" : "") + (before ? ", tables initialised before" : ""));
                   r.call(N * NOP);
                   in_child(r, [&] {
                     auto body = [&] {
                       if (before) pass(0, 60);
                       mallopt(M_PERTURB, perturb[pt]);
                       dirty_stack(perturb[pt]);
                       if (!set_locale(l, way)) { wrong = "harness: no locale"; return; }
                       set_round(rd);
                       State a = look();
                       pass(0, N);
                       std::string d = diff(a, look());
                       if (wrong.empty() && !d.empty()) wrong = "the library changes " + d;
                     };
                     if (st) on_thread(small_stack, body); else body();
                   });
                 }, 1});
  }
  {
    static const char* const places[] = {"plainly", "while an exception is under way", "in a thread of 128 KiB", "with a timer signal every 50 us", "pinned to one processor at lowest priority", "with all signals blocked"};
    const uint64_t n = 8 * 4 * 6 * 2 * 2;
    f.push_back({"every state of environment variables and clocks (8) x descriptors (4) x place of the calls (6) x tables initialised before or in it x locale (2), " + nin, n, [=](uint64_t i, hx::Rec& r) {
                   unsigned l = i % 2; i /= 2;
                   unsigned before = i % 2; i /= 2;
                   unsigned pl = i % 6; i /= 6;
                   unsigned fd = i % 4; i /= 4;
                   unsigned en = unsigned(i);
                   r.in8(std::string("environment ") + envs[en] + ", descriptors " + fdsn[fd] + ", called " + places[pl] + (before ? ", tables initialised before" : "") + (l ? ", Turkish locale" : ""));
                   r.call(N * NOP);
                   in_child(r, [&] {
                     if (l && locs.size() > 2) setlocale(LC_ALL, locs[2].c_str());
                     if (chdir(scratch.c_str())) { wrong = "harness: no scratch directory"; return; }
                     if (before) pass(0, 60);
                     set_env(en);
                     State a;
                     auto body = [&] {
                       set_fds(fd, 200);
                       a = look();
                       errno = 34;
                       if (pl == 1) { try { Unwinding u{0, N}; throw 1; } catch (int) {} } else pass(0, N);
                       std::string d = diff(a, look());
                       if (wrong.empty() && !d.empty()) wrong = "the library changes " + d;
                     };
                     if (pl == 2) on_thread(small_stack, body);
                     else if (pl == 3) {
                       struct sigaction s{};
                       s.sa_handler = tick;
                       sigaction(SIGALRM, &s, nullptr);
                       itimerval t{{0, 50}, {0, 50}};
                       setitimer(ITIMER_REAL, &t, nullptr);
                       body();
                       itimerval z{};
                       setitimer(ITIMER_REAL, &z, nullptr);
                     } else {
                       if (pl == 4) { cpu_set_t c; CPU_ZERO(&c); CPU_SET(sched_getcpu(), &c); sched_setaffinity(0, sizeof c, &c); (void)!nice(19); }
                       if (pl == 5) { sigset_t m; sigfillset(&m); sigprocmask(SIG_SETMASK, &m, nullptr); }
                       body();
                     }
                   });
                 }, 1});
  }
  // what is written, started or asked of the system
  f.push_back({"standard output and error stay empty, the standard random generator and working directory untouched, no child, per operation, tables initialised before or not, any environment variable set or not", NOP * 4, [=](uint64_t i, hx::Rec& r) {
                 unsigned k = unsigned(i / 4), before = unsigned(i % 2), all = unsigned(i / 2 % 2);
                 r.in8(std::string(opname[k]) + (before ? " after initialisation" : " first") + (all ? ", every variable set" : ""));
                 r.call(N);
                 in_child(r, [&] {
                   if (chdir(scratch.c_str())) { wrong = "harness: no scratch directory"; return; }
                   int m = int(syscall(SYS_memfd_create, "o", 0));
                   dup2(m, 1); dup2(m, 2);
                   if (all) set_env(4);
                   if (before) pass(0, 20);
                   srand(42); int r1 = rand(), r2 = rand(); srand(42); int q1 = rand();
                   pass(0, N, k, k + 1);
                   int q2 = rand();
                   fflush(nullptr);
                   struct stat st;
                   fstat(m, &st);
                   if (!wrong.empty()) return;
                   if (st.st_size) wrong = std::string(opname[k]) + " writes to standard output or error";
                   else if (q1 != r1 || q2 != r2) wrong = std::string(opname[k]) + " uses the standard random generator";
                   else if (waitpid(-1, nullptr, WNOHANG) != -1) wrong = std::string(opname[k]) + " leaves a child process";
                 });
               }, 1});
  int canrestrict = 0;
  {
    pid_t p = fork();
    if (p == 0) _exit(restrict_calls() ? 0 : 1);
    int st;
    waitpid(p, &st, 0);
    canrestrict = st == 0;
  }
  if (canrestrict)
    f.push_back({"no system call that reaches outside the process, per operation, tables initialised before or not", NOP * 2, [=](uint64_t i, hx::Rec& r) {
                   unsigned k = unsigned(i / 2), before = unsigned(i % 2);
                   r.in8(std::string(opname[k]) + (before ? " after initialisation" : " first"));
                   r.call(N);
                   int* flag = static_cast<int*>(mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
                   char* text = reinterpret_cast<char*>(flag + 1);
                   fflush(nullptr);
                   pid_t c = fork();
                   if (c == 0) {
                     wrong.clear();
                     if (before) pass(0, 20);
                     if (!restrict_calls()) _exit(3);
                     pass(0, N, k, k + 1);
                     if (!wrong.empty()) { *flag = 2; strncpy(text, wrong.c_str(), 900); } else *flag = 1;
                     syscall(SYS_exit_group, 0);
                   }
                   int st;
                   waitpid(c, &st, 0);
                   if (WIFSIGNALED(st)) r.fail(std::string(opname[k]) + (WTERMSIG(st) == SIGSYS ? " makes a system call that reaches outside the process" : std::string(" dies: ") + strsignal(WTERMSIG(st))));
                   else if (*flag == 2) r.fail(text);
                   else if (*flag != 1) r.fail("the process ends early");
                   r.outcome(uint64_t(*flag) + k * 4);
                   munmap(flag, 4096);
                 }, 1});
  f.push_back({"each operation in a synchronous signal handler on an alternate stack of 128 KiB, first or not, on every 5th input", NOP * 2, [=](uint64_t i, hx::Rec& r) {
                 unsigned k = unsigned(i / 2), before = unsigned(i % 2);
                 r.in8(std::string(opname[k]) + (before ? " after initialisation" : " first"));
                 r.call(N / 5);
                 in_child(r, [&] {
                   stack_t ss{};
                   ss.ss_size = small_stack;
                   ss.ss_sp = mmap(nullptr, ss.ss_size + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
                   mprotect(ss.ss_sp, 4096, PROT_NONE);
                   ss.ss_sp = static_cast<char*>(ss.ss_sp) + 4096;
                   sigaltstack(&ss, nullptr);
                   struct sigaction s{};
                   s.sa_handler = handler;
                   s.sa_flags = SA_ONSTACK;
                   sigaction(SIGUSR1, &s, nullptr);
                   if (before) pass(0, 20);
                   in_handler_op = k;
                   for (size_t q = 0; q < N && wrong.empty(); q += 5) { in_handler_input = q; raise(SIGUSR1); }
                 });
               }, 1});
  // where the arguments lie and what lies next to them
  {
    static const std::vector<uint8_t> near8 = {0x00, 'a', 'Z', '-', '.', 0x80, 0xC3, 0xFF};
    static const std::vector<char32_t> near32 = {0, U'a', U'-', U'.', 0x301, 0x5D0, 0x1161, 0xFFFFFFFF};
    f.push_back({"every input at 16 offsets between neighbours of 8 kinds, every operation", nreg * 8, [](uint64_t i, hx::Rec& r) {
                   size_t x = i / 8, kind = i % 8;
                   const In& in = inputs[x];
                   r.in8("neighbours " + std::to_string(kind) + ", input " + in.name.substr(0, 300));
                   static std::vector<char> b;
                   static std::vector<char32_t> u;
                   b.assign(in.s.size() + 256, char(near8[kind]));
                   u.assign(in.w.size() + 64, near32[kind]);
                   for (unsigned off = 0; off < 16; off++) {
                     char* p = b.data() + 64 + off;
                     p -= reinterpret_cast<uintptr_t>(b.data()) % 64;
                     char32_t* q = u.data() + 16 + off;
                     std::fill(b.begin(), b.end(), char(near8[kind]));
                     std::fill(u.begin(), u.end(), near32[kind]);
                     memcpy(p, in.s.data(), in.s.size());
                     std::copy(in.w.begin(), in.w.end(), q);
                     for (unsigned k = 0; k < NOP; k++)
                       if (op(k, {p, in.s.size()}, {q, in.w.size()}) != want[x * NOP + k]) { r.fail(std::string(opname[k]) + " gives another result " + std::to_string(off) + " elements after an aligned address"); return; }
                   }
                   r.call(16 * NOP);
                   r.outcome(want[x * NOP] ^ want[x * NOP + 4] ^ want[x * NOP + 8]);
                 }, 64});
  }
  // the large input spaces, with everything at once unlike in a neutral process
  static std::vector<Space> spaces = domain_spaces(th ? 1 : 0);
  {
    // A-labels of every pattern and length, as they are and with each kind of defect
    static const std::vector<U32> defect = {U"", U"A", U"\u0301", U"\u0378", U"\u00AD", U"\u05D0", U"\u200D", U"\u212B"};
    spaces.push_back({"A-labels of 8 patterns x lengths 1..120 x 8 defects x 3 positions", NPATTERN * 120 * 8 * 3, [](uint64_t i, std::string& s) {
                        unsigned pos = i % 3; i /= 3;
                        const U32& d = defect[i % 8]; i /= 8;
                        auto w = *ref::utf8_decode(pattern(i % NPATTERN, i / NPATTERN + 1));
                        w.insert(pos == 0 ? 0 : pos == 1 ? w.size() / 2 : w.size(), d);
                        std::string p;
                        ref::puny_encode(w, p);
                        s = "xn--" + p;
                      }});
  }
  static const uint64_t C = 4096;
  struct Shared { uint64_t h[C][NOP]; volatile uint64_t at; volatile unsigned op; volatile int ok; };
  for (auto& sp : spaces)
    f.push_back({"Turkish locale, upward rounding, filled memory, small stack, every environment variable set and no access to the system at once: " + sp.name, (sp.n + C - 1) / C, [&sp, canrestrict](uint64_t i, hx::Rec& r) {
                   static Shared* sh = nullptr;
                   if (!sh) sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
                   uint64_t lo = i * C, hi = std::min(sp.n, lo + C);
                   r.in8("inputs " + std::to_string(lo) + " to " + std::to_string(hi - 1));
                   r.call((hi - lo) * NOP);
                   In in;
                   auto get = [&](uint64_t k) {
                     in.s.clear();
                     sp.get(k, in.s);
                     auto d = ref::utf8_decode(in.s);
                     in.w.clear();
                     if (d) in.w = *d; else for (unsigned char c : in.s) in.w.push_back(c);
                   };
                   auto runs = [&](const std::function<void()>& f) {
                     sh->ok = 0;
                     fflush(nullptr);
                     pid_t c;
                     while ((c = fork()) < 0) usleep(10000);
                     if (c == 0) { f(); syscall(SYS_exit_group, 0); }
                     int st;
                     waitpid(c, &st, 0);
                     return st;
                   };
                   int st = runs([&] {
                     for (uint64_t k = lo; k < hi; k++) { get(k); for (unsigned o = 0; o < NOP; o++) sh->h[k - lo][o] = op(o, in); }
                   });
                   if (st) return;  // fails in a neutral process as well: not for this property
                   st = runs([&] {
                     if (locs.size() > 2) setlocale(LC_ALL, locs[2].c_str());
                     set_env(4);
                     int m = int(syscall(SYS_memfd_create, "o", 0));
                     dup2(m, 1); dup2(m, 2);
                     on_thread(small_stack, [&] {
                       mallopt(M_PERTURB, 0xA5);
                       dirty_stack(0xA5);
                       fesetround(FE_UPWARD);
                       if (canrestrict && !restrict_calls()) return;
                       for (uint64_t k = lo; k < hi; k++) {
                         get(k);
                         sh->at = k;
                         for (unsigned o = 0; o < NOP; o++) { sh->op = o; if (op(o, in) != sh->h[k - lo][o]) { sh->ok = 2; syscall(SYS_exit_group, 0); } }
                       }
                       fflush(nullptr);
                       struct stat q;
                       sh->ok = fstat(m, &q) == 0 && q.st_size ? 3 : 1;
                       syscall(SYS_exit_group, 0);
                     });
                   });
                   get(sh->at);
                   std::string w = std::string(opname[sh->op]) + " on " + hx::show8(in.s).substr(0, 300);
                   if (sh->ok == 2) r.fail(w + " gives another result");
                   else if (sh->ok == 3) r.fail("something is written to standard output or error");
                   else if (WIFSIGNALED(st)) r.fail(w + (WTERMSIG(st) == SIGSYS ? " makes a system call that reaches outside the process" : std::string(" dies: ") + strsignal(WTERMSIG(st))));
                   uint64_t a = 0;
                   for (uint64_t k = lo; k < hi; k++) for (unsigned o = 0; o < NOP; o++) { a = a * 31 + sh->h[k - lo][o]; r.outcome(sh->h[k - lo][o]); }
                   r.outcome(a);
                 }, 1});
  return hx::run(argc, argv, f);
}
