// Support for the replay harnesses: run the real code on concrete inputs and
// compare with an independent oracle.  usage: replay SEED SECONDS OUTFILE
#ifndef REPLAY_H
#define REPLAY_H
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cstring>
#include <ctime>
#include <csignal>
#include <unistd.h>
#include <string>
#include <vector>
#include <sstream>
#include <iostream>
#include <functional>
extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
namespace replay {
static uint64_t state = 1;
static double seconds = 10;
static time_t t_end;
static const char* outfile = "replay.out";
static std::string the_case;
static inline uint64_t rnd() { state ^= state << 13; state ^= state >> 7; state ^= state << 17; return state; }
static inline uint64_t rnd(uint64_t n) { return n ? rnd() % n : 0; }
static void dump(const char* why) {
  FILE* f = fopen(outfile, "w");
  if (!f) return;
  fprintf(f, "%s\ncase: ", why);
  fwrite(the_case.data(), 1, the_case.size(), f);
  fprintf(f, "\n");
  fclose(f);
}
static void on_death() { dump("sanitizer report (invalid memory access or undefined behaviour)"); }
static void on_alarm(int) { dump("the operation does not terminate"); _exit(98); }
static void on_sig(int s) { dump("the operation crashed"); _exit(97); }
static inline void init(int argc, char** argv) {
  state = 88172645463325252ull ^ (argc > 1 ? strtoull(argv[1], 0, 10) * 0x9E3779B97F4A7C15ull : 0);
  for (int i = 0; i < 10; ++i) rnd();
  if (argc > 2) seconds = atof(argv[2]);
  if (argc > 3) outfile = argv[3];
  t_end = time(0) + (time_t)seconds;
  if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(on_death);
  else { signal(SIGSEGV, on_sig); signal(SIGFPE, on_sig); signal(SIGBUS, on_sig); signal(SIGILL, on_sig); }
  signal(SIGABRT, on_sig);
  signal(SIGALRM, on_alarm);
}
static inline bool up() { return time(0) >= t_end; }
static inline std::string show(const std::string& s) {
  std::string r = "\"";
  char b[8];
  for (size_t i = 0; i < s.size() && i < 4000; ++i) {
    unsigned char c = s[i];
    if (c < 32 || c > 126 || c == '"' || c == '\\') { snprintf(b, 8, "\\x%02x", c); r += b; }
    else r += (char)c;
  }
  return r + "\"";
}
static inline void begin(const std::string& c, int limit = 15) { the_case = c; alarm(limit); }
static inline void fail(const std::string& msg) {
  dump(msg.c_str());
  printf("%s\ncase: %s\n", msg.c_str(), the_case.substr(0, 3000).c_str());
  fflush(stdout);
  _exit(1);
}
template<class T> std::string str(const T& x) { std::ostringstream o; o << x; return o.str(); }
#define CHECK(c, msg) do { if (!(c)) replay::fail(msg); } while (0)
}
#endif
