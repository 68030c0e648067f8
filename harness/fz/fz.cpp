// Case driver without a run-time of its own: the code under test runs on its own fibers or on the calling thread.
// Same choice tape, same process protocol as harness/mc.
#include <mc.hpp>

#include <yaclib/log.hpp>

#include <cstdarg>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <ctime>
#include <fcntl.h>
#include <string_view>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>

namespace mc {
namespace {

constexpr u32 kMaxP = 4096;
constexpr u32 kMaxS = 1U << 18;

struct Shared {
  char magic[8];
  u64 cases;
  u64 index;
  u32 failed;
  u32 np, ns;
  u32 running;
  u64 nontrivial;
  u64 distinct;
  char scenario[64];
  char tags[128];
  char msg[4000];
  char describe[4000];
  u32 p[kMaxP];
  u32 s[kMaxS];
};

Shared g_private;
Shared* g_sh = &g_private;
u64 g_rng;
bool g_replay, g_verbose, g_nontrivial, g_desc_on;
u32 g_rp_n, g_rs_n, g_pi, g_si;
u32 *g_rp, *g_rs;
u32 g_ndesc;
Scenario* g_scenarios;
Scenario* g_scen;
u64 g_steps;
bool g_failing;

struct LabelEntry {
  const char* scen;
  const char* name;
  u64 n, last_case;
};
LabelEntry g_labels[1024];
u32 g_nlabels;
u64 g_case_no;

u64 Rnd() noexcept {
  u64 z = (g_rng += 0x9E3779B97F4A7C15ULL);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
  return z ^ (z >> 31);
}

u64 Mix(u64 a, u64 b) noexcept {
  u64 z = a * 0x9E3779B97F4A7C15ULL + b + 0x7F4A7C15ULL;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
  return z ^ (z >> 31);
}

void CopyStr(char* to, std::size_t cap, const char* from) noexcept {
  std::size_t i = 0;
  for (; i + 1 < cap && from[i] != 0; ++i) {
    to[i] = from[i];
  }
  to[i] = 0;
}

bool HasTag(const char* list, const char* tag) noexcept {
  const std::size_t n = std::strlen(tag);
  for (const char* p = list; (p = std::strstr(p, tag)) != nullptr; p += n) {
    if ((p == list || p[-1] == ',') && (p[n] == 0 || p[n] == ',')) {
      return true;
    }
  }
  return false;
}

double Wall() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return static_cast<double>(t.tv_sec) + 1e-9 * static_cast<double>(t.tv_nsec);
}

void OnHang(int) {
  Fail("", "the case does not end (20 s of CPU time)");
}

void ArmHang() {
  itimerval t{};
  t.it_value.tv_sec = 20;
  setitimer(ITIMER_VIRTUAL, &t, nullptr);
}

u64* g_seen;
u64 g_seen_n;
constexpr u64 kSeenCap = 1ULL << 24;

void Seen(u64 h) {
  if (h == 0) {
    h = 1;
  }
  u64 i = h & (kSeenCap - 1);
  for (u32 probes = 0; probes < 64; ++probes) {
    u64 was = __atomic_load_n(&g_seen[i], __ATOMIC_RELAXED);
    if (was == 0 && __atomic_compare_exchange_n(&g_seen[i], &was, h, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) {
      ++g_seen_n;
      return;
    }
    if (was == h) {
      return;
    }
    i = (i + 1) & (kSeenCap - 1);
  }
}

void JsonStr(FILE* f, const char* s) {
  std::fputc('"', f);
  for (; *s != 0; ++s) {
    unsigned char c = *s;
    if (c == '"' || c == '\\') {
      std::fputc('\\', f);
      std::fputc(c, f);
    } else if (c < 32 || c > 126) {
      std::fprintf(f, "\\u%04x", c);
    } else {
      std::fputc(c, f);
    }
  }
  std::fputc('"', f);
}

void ReadTape(const char* path, char* scen) {
  FILE* f = std::fopen(path, "r");
  if (f == nullptr) {
    std::fprintf(stderr, "no tape %s\n", path);
    _exit(3);
  }
  g_rp = static_cast<u32*>(std::calloc(kMaxP, 4));
  g_rs = static_cast<u32*>(std::calloc(kMaxS, 4));
  char word[256];
  int mode = 0;
  while (std::fscanf(f, "%255s", word) == 1) {
    if (std::strcmp(word, "scenario") == 0) {
      if (std::fscanf(f, "%63s", scen) != 1) {
        _exit(3);
      }
      mode = 0;
    } else if (std::strcmp(word, "P") == 0) {
      mode = 1;
    } else if (std::strcmp(word, "S") == 0) {
      mode = 2;
    } else if (word[0] == '#') {
      int c;
      while ((c = std::fgetc(f)) != EOF && c != '\n') {
      }
    } else if (mode == 1) {
      if (g_rp_n < kMaxP) {
        g_rp[g_rp_n++] = static_cast<u32>(std::strtoul(word, nullptr, 10));
      }
    } else if (mode == 2) {
      char* e;
      u32 i = static_cast<u32>(std::strtoul(word, &e, 10));
      if (*e == ':' && i < kMaxS) {
        g_rs[i] = static_cast<u32>(std::strtoul(e + 1, nullptr, 10));
        if (i + 1 > g_rs_n) {
          g_rs_n = i + 1;
        }
      }
    }
  }
  std::fclose(f);
}

void Assertion(std::string_view file, std::size_t line, std::string_view, std::string_view cond,
               std::string_view msg) noexcept {
  auto pos = file.rfind('/');
  if (pos != std::string_view::npos) {
    file = file.substr(pos + 1);
  }
  Fail("", "library assertion: %.*s:%zu `%.*s` %.*s", (int)file.size(), file.data(), line, (int)cond.size(),
       cond.data(), (int)msg.size(), msg.data());
}

void RunOnce() {
  g_sh->np = g_sh->ns = 0;
  g_pi = g_si = 0;
  g_nontrivial = false;
  g_ndesc = 0;
  g_sh->describe[0] = 0;
  g_steps = 0;
  g_scen->body();
}

}  // namespace

u32 P(u32 n) noexcept {
  u32 v;
  if (g_replay) {
    v = g_pi < g_rp_n ? g_rp[g_pi] : 0;
    ++g_pi;
    if (v >= n) {
      v = n - 1;
    }
  } else {
    v = n < 2 ? 0 : static_cast<u32>(Rnd() % n);
  }
  if (g_sh->np < kMaxP) {
    g_sh->p[g_sh->np++] = v;
  }
  ++g_steps;
  return v;
}

u32 S(u32 n) noexcept {
  u32 v;
  if (g_replay) {
    v = g_si < g_rs_n ? g_rs[g_si] : 0;
    ++g_si;
    if (v >= n) {
      v = n - 1;
    }
  } else {
    v = n < 2 ? 0 : static_cast<u32>(Rnd() % n);
  }
  if (g_sh->ns < kMaxS) {
    g_sh->s[g_sh->ns++] = v;
  }
  return v;
}

[[noreturn]] void Fail(const char* tags, const char* fmt, ...) noexcept {
  if (g_failing) {
    _exit(10);
  }
  g_failing = true;
  char buf[4000];
  va_list ap;
  va_start(ap, fmt);
  std::vsnprintf(buf, sizeof(buf), fmt, ap);
  va_end(ap);
  const char* own = g_scen != nullptr ? g_scen->tags : "";
  if (tags[0] == 0) {
    CopyStr(g_sh->tags, sizeof(g_sh->tags), own);
  } else if (tags[0] == '+') {
    std::snprintf(g_sh->tags, sizeof(g_sh->tags), "%s,%s", own, tags + 1);
  } else {
    CopyStr(g_sh->tags, sizeof(g_sh->tags), tags);
  }
  CopyStr(g_sh->msg, sizeof(g_sh->msg), buf);
  g_sh->failed = 1;
  std::fprintf(stderr, "FAILED [%s] %s\n  case: %s\n", g_sh->tags, buf, g_sh->describe);
  std::fflush(stderr);
  _exit(10);
}

void Label(const char* name) noexcept {
  for (u32 i = 0; i < g_nlabels; ++i) {
    auto& l = g_labels[i];
    if (std::strcmp(l.name, name) == 0 && l.scen == g_scen->name) {
      if (l.last_case != g_case_no) {
        l.last_case = g_case_no;
        ++l.n;
      }
      return;
    }
  }
  if (g_nlabels < 1024) {
    g_labels[g_nlabels++] = {g_scen->name, strdup(name), 1, g_case_no};
  }
}

void NonTrivial() noexcept {
  g_nontrivial = true;
}

void Describe(const char* fmt, ...) noexcept {
  if (!g_desc_on || g_ndesc + 2 >= sizeof(g_sh->describe)) {
    return;
  }
  va_list ap;
  va_start(ap, fmt);
  int n = std::vsnprintf(g_sh->describe + g_ndesc, sizeof(g_sh->describe) - g_ndesc, fmt, ap);
  va_end(ap);
  if (n > 0) {
    g_ndesc += static_cast<u32>(n);
    if (g_ndesc >= sizeof(g_sh->describe)) {
      g_ndesc = sizeof(g_sh->describe) - 1;
    }
  }
}

void Log(const char* fmt, ...) noexcept {
  if (!g_verbose) {
    return;
  }
  va_list ap;
  va_start(ap, fmt);
  std::vfprintf(stderr, fmt, ap);
  va_end(ap);
  std::fputc('\n', stderr);
}

bool Replaying() noexcept {
  return g_replay;
}

bool Verbose() noexcept {
  return g_verbose;
}

void Register(Scenario* s) noexcept {
  s->next = g_scenarios;
  g_scenarios = s;
}

// set by a scenario that wants arguments of its own (a second process of the same binary)
int (*g_side_main)(int, char**) = nullptr;
const char* g_self = nullptr;

int Main(int argc, char** argv) {
  const char *filter = "*", *state = nullptr, *out = nullptr, *seen = nullptr, *replay = nullptr;
  u64 seed = 1, start = 0, stride = 1, count = ~u64{0};
  double seconds = 5;
  YACLIB_INIT_DEBUG(Assertion);
  g_self = argv[0];
  if (argc > 1 && std::strcmp(argv[1], "--side") == 0) {
    return g_side_main != nullptr ? g_side_main(argc - 2, argv + 2) : 3;
  }
  for (int i = 1; i < argc; ++i) {
    auto is = [&](const char* n) {
      return std::strcmp(argv[i], n) == 0 && i + 1 < argc;
    };
    if (is("--filter")) {
      filter = argv[++i];
    } else if (is("--state")) {
      state = argv[++i];
    } else if (is("--out")) {
      out = argv[++i];
    } else if (is("--replay")) {
      replay = argv[++i];
    } else if (is("--seen")) {
      seen = argv[++i];
    } else if (is("--seed")) {
      seed = std::strtoull(argv[++i], nullptr, 10);
    } else if (is("--start")) {
      start = std::strtoull(argv[++i], nullptr, 10);
    } else if (is("--stride")) {
      stride = std::strtoull(argv[++i], nullptr, 10);
    } else if (is("--count")) {
      count = std::strtoull(argv[++i], nullptr, 10);
    } else if (is("--time")) {
      seconds = std::strtod(argv[++i], nullptr);
    } else if (std::strcmp(argv[i], "--verbose") == 0) {
      g_verbose = true;
    } else if (std::strcmp(argv[i], "--list") == 0) {
      for (auto* s = g_scenarios; s != nullptr; s = s->next) {
        std::printf("%s %s %u\n", s->name, s->tags, s->weight);
      }
      return 0;
    } else {
      std::fprintf(stderr, "bad argument %s\n", argv[i]);
      return 3;
    }
  }
  if (state != nullptr) {
    int fd = open(state, O_RDWR | O_CREAT, 0644);
    if (fd < 0 || ftruncate(fd, sizeof(Shared)) != 0) {
      return 3;
    }
    g_sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
    close(fd);
    std::memset(g_sh, 0, offsetof(Shared, p));
  }
  CopyStr(g_sh->magic, 8, "mcstate");
  {
    stack_t ss{};
    ss.ss_sp = std::malloc(1 << 16);
    ss.ss_size = 1 << 16;
    sigaltstack(&ss, nullptr);
    struct sigaction sa{};
    sa.sa_handler = OnHang;
    sa.sa_flags = SA_ONSTACK;
    sigaction(SIGVTALRM, &sa, nullptr);
  }
  if (seen != nullptr) {
    int fd = open(seen, O_RDWR | O_CREAT, 0644);
    if (fd < 0 || ftruncate(fd, kSeenCap * 8) != 0) {
      return 3;
    }
    g_seen = static_cast<u64*>(mmap(nullptr, kSeenCap * 8, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
    close(fd);
  } else {
    g_seen = static_cast<u64*>(
      mmap(nullptr, kSeenCap * 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  }
  char replay_scen[64] = {};
  if (replay != nullptr) {
    ReadTape(replay, replay_scen);
    g_replay = true;
    filter = replay_scen;
    g_desc_on = true;
  }
  Scenario* list[256];
  u32 ns = 0;
  for (auto* s = g_scenarios; s != nullptr; s = s->next) {
    if (std::strcmp(filter, "*") == 0 || HasTag(s->tags, filter) || HasTag(filter, s->name)) {
      if (ns < 256) {
        list[ns++] = s;
      }
    }
  }
  for (u32 i = 0; i < ns; ++i) {
    for (u32 j = i + 1; j < ns; ++j) {
      if (std::strcmp(list[j]->name, list[i]->name) < 0) {
        auto* t = list[i];
        list[i] = list[j];
        list[j] = t;
      }
    }
  }
  if (ns == 0) {
    std::fprintf(stderr, "no scenario for %s\n", filter);
    return 3;
  }
  u32 wsum = 0;
  for (u32 i = 0; i < ns; ++i) {
    wsum += list[i]->weight;
  }
  const double t0 = Wall();
  u64 done = 0, nontriv = 0, steps = 0;
  char* samples[12] = {};
  u32 nsamples = 0;
  for (u64 i = start; done < count; i += stride) {
    if (replay != nullptr && done == 1) {
      break;
    }
    if (replay == nullptr && Wall() - t0 > seconds) {
      break;
    }
    g_rng = Mix(Mix(seed, 0xC0FFEE), i);
    if (replay == nullptr) {
      u32 w = static_cast<u32>(Rnd() % wsum);
      u32 k = 0;
      while (w >= list[k]->weight) {
        w -= list[k]->weight;
        ++k;
      }
      g_scen = list[k];
    } else {
      g_scen = list[0];
    }
    CopyStr(g_sh->scenario, sizeof(g_sh->scenario), g_scen->name);
    CopyStr(g_sh->tags, sizeof(g_sh->tags), g_scen->tags);
    g_sh->index = i;
    ArmHang();
    ++g_case_no;
    const bool want_sample = replay == nullptr && nsamples < 12 && g_scen->nontrivial >= 20 * g_scen->failed + 3;
    g_desc_on = replay != nullptr || want_sample;
    g_sh->running = 1;
    RunOnce();
    g_sh->running = 0;
    ++done;
    ++g_scen->cases;
    steps += g_steps;
    if (g_nontrivial) {
      ++nontriv;
      ++g_scen->nontrivial;
      u64 h = 1;
      for (const char* c = g_scen->name; *c != 0; ++c) {
        h = Mix(h, static_cast<unsigned char>(*c));
      }
      for (u32 k = 0; k < g_sh->np; ++k) {
        h = Mix(h, g_sh->p[k]);
      }
      for (u32 k = 0; k < g_sh->ns; ++k) {
        h = Mix(h, (u64{k} << 32) | g_sh->s[k]);
      }
      Seen(h);
      if (want_sample && g_sh->describe[0] != 0) {
        char buf[1200];
        int n = std::snprintf(buf, sizeof(buf), "%s: %s", g_scen->name, g_sh->describe);
        n = n < 1199 ? n : 1199;
        samples[nsamples] = static_cast<char*>(std::malloc(n + 1));
        CopyStr(samples[nsamples], n + 1, buf);
        ++nsamples;
        ++g_scen->failed;  // = number of samples taken from this scenario
      }
    }
    g_sh->cases = done;
    g_sh->nontrivial = nontriv;
    g_sh->distinct = g_seen_n;
  }
  if (out != nullptr) {
    FILE* f = std::fopen(out, "w");
    std::fprintf(f, "{\"cases\":%llu,\"nontrivial\":%llu,\"distinct\":%llu,\"steps\":%llu,\"switched\":%llu,\"wall\":%.3f,",
                 (unsigned long long)done, (unsigned long long)nontriv, (unsigned long long)g_seen_n,
                 (unsigned long long)steps, 0ULL, Wall() - t0);
    std::fprintf(f, "\"scenarios\":{");
    for (u32 i = 0; i < ns; ++i) {
      std::fprintf(f, "%s\"%s\":[%llu,%llu]", i ? "," : "", list[i]->name, (unsigned long long)list[i]->cases,
                   (unsigned long long)list[i]->nontrivial);
    }
    std::fprintf(f, "},\"labels\":{");
    for (u32 i = 0; i < g_nlabels; ++i) {
      std::fprintf(f, "%s", i ? "," : "");
      char key[300];
      std::snprintf(key, sizeof(key), "%s/%s", g_labels[i].scen, g_labels[i].name);
      JsonStr(f, key);
      std::fprintf(f, ":%llu", (unsigned long long)g_labels[i].n);
    }
    std::fprintf(f, "},\"samples\":[");
    for (u32 i = 0; i < nsamples; ++i) {
      std::fprintf(f, "%s", i ? "," : "");
      JsonStr(f, samples[i]);
    }
    std::fprintf(f, "]}\n");
    std::fclose(f);
  }
  if (replay != nullptr) {
    std::fprintf(stderr, "REPLAY ok: %s\n", g_sh->describe);
  }
  return 0;
}

}  // namespace mc

int main(int argc, char** argv) {
  return mc::Main(argc, argv);
}
