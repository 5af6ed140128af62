// C32: the library as a 32-bit program (addresses, sizes and long of 32 bits) does what it does here.
#include <fcntl.h>
#include <poll.h>
#include <sys/prctl.h>
#include "harness.hpp"
#include "gen.hpp"
#include "c24_cfg.cpp"
#include "c32_big.hpp"
using namespace gen;
static std::vector<std::pair<std::string, std::string>> progs;  // file, name
struct Prog {
  pid_t pid = 0;
  int cmd = -1, done = -1;
  char* m = nullptr;
};
static std::vector<Prog> P;
static void start(size_t k) {
  Prog& p = P[k];
  int fd = memfd_create("batch", MFD_CLOEXEC), a[2], b[2];
  if (fd < 0 || ftruncate(fd, c32::SIZE) || pipe2(a, O_CLOEXEC) || pipe2(b, O_CLOEXEC)) { perror("pipe"); _exit(3); }
  p.m = static_cast<char*>(mmap(nullptr, c32::SIZE, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
  // high numbers first, so that none of them is overwritten
  int x[3] = {fcntl(fd, F_DUPFD, 100), fcntl(a[0], F_DUPFD, 100), fcntl(b[1], F_DUPFD, 100)};
  while ((p.pid = fork()) < 0) usleep(10000);
  if (p.pid == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    dup2(x[0], 3); dup2(x[1], 4); dup2(x[2], 5);
    syscall(SYS_close_range, 6, ~0u, 0);
    execl(progs[k].first.c_str(), progs[k].first.c_str(), nullptr);
    _exit(93);
  }
  for (int y : x) close(y);
  close(fd); close(a[0]); close(b[1]);
  p.cmd = a[1];
  p.done = b[0];
}
static void stop(size_t k) {
  Prog& p = P[k];
  if (!p.pid) return;
  kill(p.pid, SIGKILL);
  waitpid(p.pid, nullptr, 0);
  close(p.cmd); close(p.done);
  munmap(p.m, c32::SIZE);
  p = Prog{};
}
static void go(size_t k) { char c = 1; if (write(P[k].cmd, &c, 1) != 1) {} }
// waits for the answer; "" or what happened; code: exit status of the program
static std::string answer(size_t k, int& code, int ms) {
  Prog& p = P[k];
  code = 0;
  pollfd q{p.done, POLLIN, 0};
  int r;
  while ((r = poll(&q, 1, ms)) < 0 && errno == EINTR) {}
  char c;
  if (r > 0 && read(p.done, &c, 1) == 1) return "";
  if (r == 0) { stop(k); return "gives no answer"; }
  int st;
  waitpid(p.pid, &st, 0);
  p.pid = 0;
  close(p.cmd); close(p.done);
  code = WIFEXITED(st) ? WEXITSTATUS(st) : 0;
  munmap(p.m, c32::SIZE);
  p = Prog{};
  if (WIFSIGNALED(st)) return std::string("dies: ") + strsignal(WTERMSIG(st));
  return code == 78 ? "cannot get memory" : code == 79 ? "throws a logic error" : code == 81 ? "writes beyond a block of memory" : code == 82 ? "overruns a buffer" : "ends with status " + std::to_string(code);
}
static const char* nm[] = {"to_ascii", "to_unicode", "punycode/forbidden functions", "UTF-8 decoding / ASCII mapping", "map", "normalize", "label validity / identifiers", "punycode encoding / UTF-8 encoding"};
struct Input { std::string bytes; unsigned lo, hi; size_t n; };
static void run_batch(const std::vector<Input>& in, hx::Rec& r) {
  static char* mine = nullptr;
  if (!mine) mine = static_cast<char*>(mmap(nullptr, c32::SIZE, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  c32::Head* h = reinterpret_cast<c32::Head*>(mine);
  size_t i = 0;
  while (i < in.size() && !r.bad) {
    size_t first = i;
    char* q = mine + 4096;
    for (; i < in.size() && i - first < c32::MAXREQ; i++) {
      c32::Req rq = {in[i].lo, in[i].hi, uint32_t(in[i].n), uint32_t((in[i].bytes.size() + 15) / 16 * 16)};
      if (q + sizeof rq + rq.bytes > mine + c32::RES) break;
      memcpy(q, &rq, sizeof rq);
      memcpy(q + sizeof rq, in[i].bytes.data(), in[i].bytes.size());
      q += sizeof rq + rq.bytes;
    }
    h->count = uint32_t(i - first);
    h->big = 0;
    for (size_t k = 0; k < progs.size(); k++) {
      if (!P[k].pid) start(k);
      memcpy(P[k].m, mine, size_t(q - mine));
      go(k);
    }
    c32::batch(mine, cfg_call, [](const char* p, size_t) -> const void* { return p; });
    const uint64_t* want = reinterpret_cast<uint64_t*>(mine + c32::RES);
    for (size_t k = 0; k < progs.size(); k++) {
      int code;
      char* m = P[k].m;
      // the place the program had reached is lost with its memory: keep a second look at it
      char* keep = static_cast<char*>(mremap(m, 0, c32::SIZE, MREMAP_MAYMOVE));
      std::string e = answer(k, code, 60000);
      auto say = [&](size_t x, unsigned fn, const std::string& w) {
        const Input& b = in[first + x];
        r.fail(std::string(nm[fn]) + ": the 32-bit program (" + progs[k].second + ") " + w + " on " + (b.lo >= 4 ? hx::show32({reinterpret_cast<const char32_t*>(b.bytes.data()), b.n}) : hx::show8(b.bytes)).substr(0, 500));
      };
      c32::Head* g = reinterpret_cast<c32::Head*>(keep);
      if (!e.empty()) {
        if (code >= 90) { fprintf(stderr, "32-bit program: %s\n", e.c_str()); _exit(3); }
        say(g->at, g->fn & 7, e);
      } else {
        const uint64_t* got = reinterpret_cast<uint64_t*>(keep + c32::RES);
        for (size_t x = 0; x < i - first && !r.bad; x++)
          for (unsigned fn = in[first + x].lo; fn <= in[first + x].hi; fn++) {
            if (k == 0) r.outcome(want[x * c32::NFN + fn]);
            if (got[x * c32::NFN + fn] != want[x * c32::NFN + fn]) { say(x, fn, "gives another result"); break; }
          }
      }
      munmap(keep, c32::SIZE);
    }
    uint64_t calls = 0;
    for (size_t x = first; x < i; x++) calls += in[x].hi - in[x].lo + 1;
    r.call(calls * (progs.size() + 1));
  }
}
struct Env64 {
  std::vector<std::pair<char*, size_t>> own_;
  char* repeat(uint64_t bytes, uint32_t unit, unsigned w) {
    size_t total = (bytes + c32::CHUNK - 1) / c32::CHUNK * c32::CHUNK;
    char* b = static_cast<char*>(mmap(nullptr, total + 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    int fd = memfd_create("chunk", 0);
    if (b == MAP_FAILED || fd < 0 || ftruncate(fd, c32::CHUNK)) _exit(3);
    own_.push_back({b, total + 4096});
    for (size_t o = 0; o < total; o += c32::CHUNK) if (mmap(b + o, c32::CHUNK, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) _exit(3);
    close(fd);
    if (w == 4) for (size_t i = 0; i < c32::CHUNK; i += 4) memcpy(b + i, &unit, 4); else memset(b, int(unit), c32::CHUNK);
    return b + (total - bytes);
  }
  bool own(char* p, size_t n) {
    char* a = reinterpret_cast<char*>(uintptr_t(p) & ~uintptr_t(4095));
    size_t len = size_t(p + n - a + 4095) & ~size_t(4095);
    std::string keep(a, len);
    if (mmap(a, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0) == MAP_FAILED) _exit(3);
    memcpy(a, keep.data(), len);
    return true;
  }
  ~Env64() { for (auto& [a, n] : own_) munmap(a, n); }
};
int main(int argc, char** argv) {
  ref::load(REFDATA);
  bool th = thorough();
  {
    FILE* f = fopen("progs.txt", "r");
    char line[600];
    if (!f) return 3;
    while (fgets(line, sizeof line, f)) {
      std::string l(line);
      l.pop_back();
      auto sp = l.find(' ');
      progs.push_back({l.substr(0, sp), l.substr(sp + 1)});
    }
    fclose(f);
    P.resize(progs.size());
  }
  std::vector<hx::Family> f;
  auto add = [&](const std::string& name, uint64_t n, unsigned lo, unsigned hi, std::function<void(uint64_t, Input&)> get, uint64_t per = 2048) {
    f.push_back({name, (n + per - 1) / per, [=](uint64_t i, hx::Rec& r) {
                   std::vector<Input> v;
                   uint64_t a = i * per, b = std::min(n, a + per);
                   r.in8("inputs " + std::to_string(a) + " to " + std::to_string(b - 1));
                   for (uint64_t k = a; k < b; k++) {
                     Input x;
                     x.lo = lo; x.hi = hi;
                     get(k, x);
                     x.n = lo >= 4 ? x.bytes.size() / 4 : x.bytes.size();
                     v.push_back(std::move(x));
                   }
                   run_batch(v, r);
                 }, 1});
  };
  auto wide = [](const U32& s) { return std::string(reinterpret_cast<const char*>(s.data()), s.size() * 4); };
  // huge buffers first: they take longest
  {
    struct Case { uint32_t kind, unit; std::vector<uint32_t> end; };
    static const std::vector<Case> cases = {
        {c32::FORBIDDEN, 'a', {'b', '%'}}, {c32::VERIFY, 'a', {'b', '-', 0xE9}}, {c32::ASCII_MAP, 'A', {'Z', '['}}, {c32::LEN8, 0xA9, {0x61, 0xC3, 0xF0}},
        {c32::LEN8, 'a', {0xC3}}, {c32::LEN32, U'a', {0xE9, 0x10FFFF}}, {c32::LEN32, 0x7FF, {'a'}}, {c32::TO_UTF8, U'a', {0xE9, 0xD800, 0x110000}}, {c32::TO_UTF32, 'a', {'b', 0xC3}},
        {c32::TO_ASCII, 'a', {'b'}}, {c32::TO_UNICODE, 'a', {'b'}}, {c32::NFC, U'a', {U'b', 0x301, 0x212B}}, {c32::MAP, U'a', {U'B'}}, {c32::MAP, 0xAD, {U'B'}}, {c32::MAP, 0xFDFA, {U'a'}},
        {c32::TO_PUNY, U'a', {0xE9, 0xD800}}, {c32::FROM_PUNY, 'a', {'-', '9'}}, {c32::VALID, 0x5D0, {0x5B0, 'a'}}};
    static std::vector<std::array<uint64_t, 3>> list;  // case, end, bytes
    for (size_t c = 0; c < cases.size(); c++)
      for (size_t e = 0; e < cases[c].end.size(); e++) {
        std::vector<uint64_t> sizes = {(1ull << 30) + 4, (1ull << 31) - 8};  // no object is longer than PTRDIFF_MAX
        if (th) sizes = {1ull << 28, 1ull << 29, (1ull << 30) - 4, 1ull << 30, (1ull << 30) + 4, (3ull << 29) + 4, (1ull << 31) - 16, (1ull << 31) - 12, (1ull << 31) - 8, (1ull << 31) - 4};
        if (cases[c].kind == c32::VERIFY && !th) { if (e == 2) continue; sizes = {sizes[e]}; }
        if (cases[c].kind == c32::NFC && !th) sizes = {sizes[e % 2]};
        if (cases[c].kind == c32::VALID) { if (e) continue; sizes = {(1ull << 31) - 8}; if (!th) sizes.clear(); }
        if (cases[c].kind == c32::TO_UTF8 || cases[c].kind == c32::TO_UTF32) for (auto& s : sizes) s = s / (cases[c].kind == c32::TO_UTF32 ? 4 : 1);
        for (auto s : sizes) list.push_back({c, e, s});
      }
    f.push_back({"buffers of " + std::to_string(th ? 10 : 2) + " sizes of 2^28..2^31 bytes x contents x last element, per operation", list.size(), [th](uint64_t i, hx::Rec& r) {
                   auto [c, e, bytes] = list[i];
                   const Case& k = cases[c];
                   c32::Big b{};
                   b.kind = k.kind; b.unit = k.unit;
                   b.n = c32::wide(k.kind) ? bytes / 4 : bytes;
                   b.nspec = 1; b.pos[0] = b.n - 1; b.val[0] = k.end[e];
                   static const char* kn[] = {"contains_forbidden_domain_code_point", "verify_punycode", "ascii_map", "utf32_length_from_utf8", "utf8_length_from_utf32", "utf32_to_utf8", "utf8_to_utf32", "to_ascii", "to_unicode", "is_already_nfc", "is_label_valid", "map", "utf32_to_punycode", "punycode_to_utf32"};
                   r.in8(std::string(kn[b.kind]) + " of " + std::to_string(b.n) + " elements " + std::to_string(b.unit) + ", the last one " + std::to_string(b.val[0]));
                   std::vector<std::pair<size_t, std::array<uint64_t, 4>>> got;
                   for (size_t p = 0; p < progs.size(); p++) {
                     if (progs[p].second.find("-O0") != std::string::npos) continue;  // slow, and has its turn on ordinary sizes
                     if (!th && p != (i % 2 ? progs.size() - 1 : 0)) continue;
                     if (!P[p].pid) start(p);
                     c32::Head* h = reinterpret_cast<c32::Head*>(P[p].m);
                     h->big = 1;
                     memcpy(P[p].m + 4096, &b, sizeof b);
                     go(p);
                     hx::me->busy.fetch_add(1, std::memory_order_relaxed);
                     int code;
                     std::string w = answer(p, code, 300000);
                     r.call();
                     if (code >= 90) { fprintf(stderr, "32-bit program: %s\n", w.c_str()); _exit(3); }
                     if (code == 78 && b.kind != c32::TO_ASCII && b.kind != c32::TO_UNICODE && b.kind != c32::FORBIDDEN && b.kind != c32::ASCII_MAP && b.kind != c32::LEN8 && b.kind != c32::LEN32) { r.outcome(b.kind + 100); continue; }  // more memory than there is: allowed
                     if (!w.empty()) { r.fail(std::string(kn[b.kind]) + ": the 32-bit program (" + progs[p].second + ") " + w); return; }
                     h = reinterpret_cast<c32::Head*>(P[p].m);
                     if (h->bigres[0] == ~0ull && b.kind != c32::LEN8) { r.outcome(b.kind + 200); continue; }
                     got.push_back({p, {h->bigres[0], h->bigres[1], h->bigres[2], h->bigres[3]}});
                     r.outcome(h->bigres[0] * 31 + h->bigres[1] * 7 + h->bigres[2]);
                   }
                   if (got.empty()) return;
                   uint64_t want[4];
                   { Env64 env; c32::big(b, env, want); }
                   for (auto& [p, g] : got) if (memcmp(g.data(), want, sizeof want)) { r.fail(std::string(kn[b.kind]) + ": the 32-bit program (" + progs[p].second + ") answers " + std::to_string(g[0]) + "/" + std::to_string(g[1]) + ", here it is " + std::to_string(want[0]) + "/" + std::to_string(want[1])); return; }
                 }, 1});
  }
  static std::vector<Space> spaces = domain_spaces(th ? 1 : 0);
  for (auto& sp : spaces) {
    if (sp.n > 6000000) continue;
    add(sp.name, sp.n, 0, 3, [&sp](uint64_t i, Input& x) { sp.get(i, x.bytes); if (x.bytes.size() >= 60) x.hi = 1; });
  }
  {
    auto& A = domain_alphabet();
    Words w(A.size(), 3);
    add("words of <= 3 tokens over " + std::to_string(A.size()) + " tokens", w.total, 0, 1, [w](uint64_t i, Input& x) { for (auto k : w.get(i)) x.bytes += u8(domain_alphabet()[k]); });
    auto& L = label_alphabet();
    uint64_t n = L.size();
    add("domains of 3 labels over " + std::to_string(n), n * n * n, 0, 1, [n](uint64_t i, Input& x) { auto& L = label_alphabet(); x.bytes = L[i % n] + "." + L[i / n % n] + "." + L[i / n / n]; });
  }
  add("all byte strings of length <= 2", 65536 + 256, 0, 3, [](uint64_t i, Input& x) { if (i < 256) x.bytes += char(i); else { i -= 256; x.bytes += char(i >> 8); x.bytes += char(i); } });
  static const std::u32string A = {0, U'a', U'Z', U'-', U'.', 0x7F, 0x80, 0xAD, 0xDF, 0xFC, 0x301, 0x308, 0x323, 0x345, 0x5D0, 0x627, 0x628, 0x661, 0x94D, 0x1100, 0x1161, 0x1175, 0x11A7, 0x11A8, 0x11C2, 0x200C, 0x200D, 0xAC00, 0xAC01, 0xD7A3, 0xD800, 0xFDFA, 0xFFFF, 0x10000, 0x1D15E, 0x2F800, 0xE0100, 0x10FFFF, 0x110000, 0xFFFFFFFF};
  Words w(A.size(), 3);
  add("all sequences of <= 3 of " + std::to_string(A.size()) + " code points", w.total, 4, 7, [w, wide](uint64_t i, Input& x) { U32 s; for (auto k : w.get(i)) s.push_back(A[k]); x.bytes = wide(s); });
  add("every value 0..0x120000", 0x120000, 4, 7, [wide](uint64_t i, Input& x) { x.bytes = wide(U32(1, char32_t(i))); });
  add("every value 0x110000..2^32 in steps of 4093", (0x100000000ull - 0x110000) / 4093, 4, 7, [wide](uint64_t i, Input& x) { x.bytes = wide(U32(1, char32_t(0x110000 + i * 4093))); });
  add("repetitions: each code point x lengths 0..200", 40 * 201, 4, 7, [wide](uint64_t i, Input& x) { x.bytes = wide(U32(i / 40, A[i % 40])); }, 256);
  // Punycode with deltas around every power of two
  {
    static std::vector<std::string> t;
    static const std::string D = "a9zb0y";
    Words pw(D.size(), th ? 8 : 6);
    static std::vector<std::string> pre = {"", "a-", "abc-", "99999", "zzzzzz", "bcdefg-99999", "99999999"};
    add("Punycode payloads of <= " + std::to_string(th ? 8 : 6) + " digits of 6 after " + std::to_string(pre.size()) + " beginnings", pw.total * pre.size(), 2, 2, [pw](uint64_t i, Input& x) { x.bytes = pre[i % pre.size()]; for (auto k : pw.get(i / pre.size())) x.bytes += D[k]; });
    static const std::vector<uint64_t> cps = {0x80, 0xE9, 0x3C5, 0xFFFF, 0x10000, 0x7FFFF, 0x10FFFF};
    static std::vector<uint32_t> many;
    for (uint32_t k = 1; k <= 12000; k++) if (k <= 300 || k % 64 == 0 || (k > 1915 && k < 1940) || (k > 3845 && k < 3870) || (th && k < 6000)) many.push_back(k);
    add("a code point after 1..12000 others (" + std::to_string(many.size()) + " numbers), 7 x 7 code points", 7 * 7 * many.size(), 7, 7, [wide](uint64_t i, Input& x) { U32 s(many[i / 49], char32_t(cps[i % 7])); s.push_back(char32_t(cps[i / 7 % 7])); x.bytes = wide(s); }, 49);
  }
  hx::Opt o;
  o.hang_s = 300;
  return hx::run(argc, argv, f, o);
}
