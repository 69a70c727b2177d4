#include "replay.h"
#include <dlfcn.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <cstddef>
#include <string.h>
#include <stdlib.h>
#include <unistd.h>
#include <iomanip>
#include <memory>
#include "ceni.h"
#include "optParser.h"
#include <eni.h>
extern "C" int __asan_address_is_poisoned(void const volatile*) __attribute__((weak));
// stand-ins that record what they are given (nothing is really loaded)
struct Log { int open, sym, close, op; bool afterclose; char lib[4096], symname[4096], par[4096]; void* res; int freed; };
static Log* L;
struct Plan { bool noload, nosym, nores; std::string text; uint64_t gas; bool rungas; };
static Plan P;
static void* the_op(char* a) {
  L->op++; if (L->close) L->afterclose = true;
  strncpy(L->par, a, 4095);
  if (P.nores) return 0;
  if (P.rungas) { uint64_t* g = (uint64_t*)malloc(8); *g = P.gas; return L->res = g; }
  char* r = (char*)malloc(P.text.size() + 1); memcpy(r, P.text.c_str(), P.text.size() + 1);
  return L->res = r;
}
static int dummy;
static void* stub_dlopen(const char* f, int) { L->open++; strncpy(L->lib, f ? f : "(null)", 4095); return P.noload ? 0 : &dummy; }
static void* stub_dlsym(void* h, const char* n) { if (h != &dummy || L->close) L->afterclose = true; L->sym++; strncpy(L->symname, n, 4095); return P.nosym ? 0 : (void*)&the_op; }
static int stub_dlclose(void* h) { if (h != &dummy) L->afterclose = true; L->close++; return 0; }
static void stub_free(void* p) { if (p && p == L->res) L->freed++; ::free(p); }
#define dlopen stub_dlopen
#define dlsym stub_dlsym
#define dlclose stub_dlclose
#define free stub_free
#define main tool_main
namespace run_tool {
#include "eni_run.cpp"
}
#undef NULL_RETURN
namespace gas_tool {
#include "eni_gas.cpp"
}
#undef main
#undef free
#undef dlopen
#undef dlsym
#undef dlclose
static void one(bool gas, const std::vector<std::string>& av, const Plan& plan) {
  std::string c = gas ? "eni_gas" : "eni_run";
  for (size_t i = 1; i < av.size(); ++i) c += " " + replay::show(av[i]);
  c += plan.noload ? " [library not loadable]" : plan.nosym ? " [symbol missing]" : plan.nores ? " [operation returns nothing]" :
    gas ? " [gas " + replay::str(plan.gas) + "]" : " [result " + replay::show(plan.text) + "]";
  replay::begin(c);
  P = plan; P.rungas = gas;
  memset(L, 0, sizeof *L);
  int fd = open("tool.out", O_CREAT | O_TRUNC | O_RDWR, 0600);
  fflush(0);
  pid_t pid = fork();
  if (pid == 0) {
    dup2(fd, 1);
    int nul = open("/dev/null", O_WRONLY); dup2(nul, 2);
    std::vector<char*> p;
    for (size_t i = 0; i < av.size(); ++i) p.push_back(strdup(av[i].c_str()));
    int n = p.size(); p.push_back(0);
    int rc = gas ? gas_tool::tool_main(n, &p[0]) : run_tool::tool_main(n, &p[0]);
    std::cout.flush(); fflush(0);
    if (L->res && !L->freed && (!__asan_address_is_poisoned || !__asan_address_is_poisoned(L->res))) L->freed = -1;
    _exit(rc);
  }
  int st = 0; waitpid(pid, &st, 0);
  std::string out; char b[4096]; ssize_t k; lseek(fd, 0, SEEK_SET);
  while ((k = read(fd, b, sizeof b)) > 0) out.append(b, k);
  close(fd);
  std::vector<std::string> pos; bool end = false;
  for (size_t i = 1; i < av.size(); ++i) {
    if (!end && av[i][0] == '-') { if (av[i] == "--") end = true; }
    else pos.push_back(av[i]);
  }
  int want = pos.size() != 3 ? (gas ? 2 : 1) : plan.noload ? 3 : plan.nosym ? 4 : plan.nores ? 5 : 0;
  CHECK(WIFEXITED(st), "the tool crashed");
  CHECK(WEXITSTATUS(st) == want, "exit status " + replay::str(WEXITSTATUS(st)) + ", expected " + replay::str(want));
  CHECK(out == (want ? "" : (gas ? replay::str(plan.gas) : plan.text) + "\n"), "standard output is wrong: " + replay::show(out));
  CHECK(!L->afterclose, "a closed or foreign library handle is used");
  CHECK(L->open == (pos.size() == 3), "number of library loads");
  if (L->open) CHECK(pos[0] == L->lib, "wrong library loaded: " + replay::show(L->lib));
  CHECK(L->sym == (L->open && !plan.noload), "number of symbol lookups");
  if (L->sym) CHECK(pos[1] + (gas ? "_gas" : "_run") == L->symname, "wrong symbol: " + replay::show(L->symname));
  CHECK(L->op == (L->sym && !plan.nosym), "number of calls of the operation");
  if (L->op) CHECK(pos[2] == L->par, "wrong parameter text: " + replay::show(L->par));
  CHECK(L->close <= 1, "library closed twice");
  if (want == 0) CHECK(L->freed >= 0, "the returned memory is not released");
}
int main(int argc, char** argv) {
  replay::init(argc, argv);
  L = (Log*)mmap(0, sizeof(Log), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  const char* words[] = {"lib.so", "./a.so", "op", "reverse", "[\"x\"]", "-x", "--", "", "-", "[1, 2]", "--help", "%s%d"};
  const uint64_t gs[] = {0, 1, 9, 10, 1500, 4294967295u, 4294967296u, 2147483648u, 9223372036854775807u, 9223372036854775808u, 18446744073709551615u};
  bool fixed = true;
  for (unsigned it = 0; !replay::up() || fixed; ++it) {
    fixed = it < 200;
    std::vector<std::string> av(1, "tool");
    if (replay::rnd(4)) { av.push_back("lib.so"); av.push_back(words[2 + replay::rnd(2)]); av.push_back(words[replay::rnd(2) ? 4 : 9]); if (!replay::rnd(8)) av.insert(av.begin() + 1 + replay::rnd(3), "--"); }
    else { size_t n = replay::rnd(7); for (size_t i = 0; i < n; ++i) av.push_back(words[replay::rnd(12)]); }
    Plan p;
    int k = replay::rnd(8);
    p.noload = k == 0; p.nosym = k == 1; p.nores = k == 2;
    p.gas = replay::rnd(2) ? gs[replay::rnd(11)] : replay::rnd() >> replay::rnd(64);
    size_t n = replay::rnd(3) ? replay::rnd(20) : 0; if (!replay::rnd(10)) n = replay::rnd(3000);
    for (size_t i = 0; i < n; ++i) p.text += (char)(replay::rnd(3) ? 32 + replay::rnd(95) : 1 + replay::rnd(255));
    one(it & 1, av, p);
  }
  return 0;
}
