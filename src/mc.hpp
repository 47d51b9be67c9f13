// Common parts of the model-checking harnesses: case recording (so that the
// driver can replay what was running when a process died), violation reports,
// counters, a CPU-time watchdog and small utilities.
#pragma once
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <stdexcept>
#include <string>
#include <vector>

namespace mc {

using Words = std::vector<uint32_t>;

// ---- in-flight case record (file mapped shared; read by the driver) --------
struct Inflight {
  volatile uint64_t seq;
  volatile uint32_t len;
  uint32_t words[1 << 16];
};
inline Inflight* inflight_rec() {
  static Inflight* r = [] {
    const char* p = getenv("MC_INFLIGHT");
    void* m = MAP_FAILED;
    if (p) {
      int fd = open(p, O_RDWR | O_CREAT, 0600);
      if (fd >= 0 && ftruncate(fd, sizeof(Inflight)) == 0)
        m = mmap(nullptr, sizeof(Inflight), PROT_READ | PROT_WRITE, MAP_SHARED,
                 fd, 0);
      if (fd >= 0) close(fd);
    }
    if (m == MAP_FAILED)
      m = mmap(nullptr, sizeof(Inflight), PROT_READ | PROT_WRITE,
               MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    return static_cast<Inflight*>(m);
  }();
  return r;
}
inline void begin_case(const Words& w) {
  Inflight* r = inflight_rec();
  size_t n = w.size() < (1 << 16) ? w.size() : (1 << 16);
  r->seq = r->seq + 1;
  r->len = 0;
  memcpy(r->words, w.data(), n * 4);
  r->len = static_cast<uint32_t>(n);
}

// ---- watchdog: CPU seconds spent in one case -------------------------------
inline int g_hang_limit = 20;
__attribute__((no_sanitize("thread"))) inline void on_tick(int) {
  static uint64_t last = ~0ull;
  static int ticks = 0;
  Inflight* r = inflight_rec();
  if (r->seq == last) {
    if (++ticks >= g_hang_limit) {
      static const char m[] = "{\"hang\":1}\n";
      if (write(1, m, sizeof m - 1)) {
      }
      _exit(97);
    }
  } else {
    last = r->seq;
    ticks = 0;
  }
}
inline void start_watchdog() {
  if (const char* s = getenv("MC_HANG")) g_hang_limit = atoi(s);
  struct sigaction sa {};
  sa.sa_handler = on_tick;
  sa.sa_flags = SA_RESTART;
  sigaction(SIGPROF, &sa, nullptr);
  itimerval tv{{1, 0}, {1, 0}};
  setitimer(ITIMER_PROF, &tv, nullptr);
}

// ---- violations ------------------------------------------------------------
struct Violation : std::runtime_error {
  using std::runtime_error::runtime_error;
};
// While a Fail is being raised inside code that may catch everything, the text
// is also kept here.
inline std::string g_fail_text;
[[noreturn]] inline void fail(const std::string& s) {
  g_fail_text = s;
  throw Violation(s);
}
#define MC_STR2(x) #x
#define MC_STR(x) MC_STR2(x)
#define CHECK(c, ...)                                        \
  do {                                                       \
    if (!(c)) [[unlikely]] ::mc::fail(::mc::fmt(__VA_ARGS__)); \
  } while (0)
inline std::string fmt(const char* f, ...) {
  char b[1024];
  va_list ap;
  va_start(ap, f);
  vsnprintf(b, sizeof b, f, ap);
  va_end(ap);
  return b;
}

// ---- counters and output ---------------------------------------------------
inline std::map<std::string, uint64_t> counters;
inline uint64_t& counter(const char* n) { return counters[n]; }
inline std::vector<std::string> samples;
inline std::string json_escape(const std::string& s) {
  std::string o;
  for (char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += c;
    } else if (static_cast<unsigned char>(c) < 32) {
      o += ' ';
    } else {
      o += c;
    }
  }
  return o;
}
inline void print_result(bool exhaustive) {
  std::string o = "{\"result\":1,\"exhaustive\":";
  o += exhaustive ? "true" : "false";
  o += ",\"counters\":{";
  bool first = true;
  for (auto& [k, v] : counters) {
    if (!first) o += ",";
    first = false;
    o += "\"" + k + "\":" + std::to_string(v);
  }
  o += "},\"samples\":[";
  first = true;
  for (auto& s : samples) {
    if (!first) o += ",";
    first = false;
    o += "\"" + json_escape(s) + "\"";
  }
  o += "]}";
  printf("%s\n", o.c_str());
  fflush(stdout);
}
inline void print_violation(const Words& w, const std::string& text) {
  std::string o = "{\"violation\":\"" + json_escape(text) + "\",\"case\":[";
  for (size_t i = 0; i < w.size(); ++i) {
    if (i) o += ",";
    o += std::to_string(w[i]);
  }
  o += "]}";
  printf("%s\n", o.c_str());
  fflush(stdout);
}

inline uint64_t splitmix(uint64_t x) {
  x += 0x9e3779b97f4a7c15ull;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}
struct Hash128 {
  uint64_t a = 0x243f6a8885a308d3ull, b = 0x13198a2e03707344ull;
  void add(uint64_t x) {
    a = splitmix(a ^ x);
    b = splitmix(b + x * 0x9e3779b97f4a7c15ull + 0x1234567);
  }
  void add_bytes(const std::string& s) {
    for (unsigned char c : s) add(c);
    add(s.size() + 1000);
  }
  bool operator==(const Hash128& o) const { return a == o.a && b == o.b; }
};
struct Hash128Hash {
  size_t operator()(const Hash128& h) const { return h.a; }
};

inline double now_s() {
  timespec t{};
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}
inline double time_budget() {
  const char* s = getenv("MC_TIME");
  return s ? atof(s) : 1e9;
}
inline Words parse_words(const char* file) {
  Words w;
  FILE* f = fopen(file, "r");
  if (!f) {
    perror(file);
    exit(2);
  }
  unsigned long x;
  while (fscanf(f, "%lu", &x) == 1) w.push_back(static_cast<uint32_t>(x));
  fclose(f);
  return w;
}

// Standard main: `prog explore` or `prog replay FILE`.
// run_case throws Violation; explore throws Violation after setting `current`.
inline Words current;
inline int run_main(int argc, char** argv, const std::function<bool()>& explore,
                    const std::function<void(const Words&)>& run_case) {
  start_watchdog();
  try {
    if (argc >= 3 && !strcmp(argv[1], "replay")) {
      current = parse_words(argv[2]);
      begin_case(current);
      run_case(current);
      print_result(true);
      return 0;
    }
    bool ex = explore();
    print_result(ex);
    return 0;
  } catch (const Violation& v) {
    print_violation(current, v.what());
    return 1;
  } catch (const std::exception& e) {
    print_violation(current, std::string("unexpected exception: ") + e.what());
    return 1;
  } catch (...) {
    print_violation(current, "unexpected exception");
    return 1;
  }
}

}  // namespace mc
