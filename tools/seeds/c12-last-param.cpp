// Every parameter of a model string counts, also the last of many: an unknown one is refused.
#include "apollo/Apollo.h"
#include "apollo/Region.h"
#include <cstdio>
#include <cstdlib>
#include <sys/wait.h>
#include <unistd.h>
static int status(const char *info) {
  pid_t p = fork();
  if (!p) {
    if (!freopen("/dev/null", "w", stderr)) {}
    try { Apollo::instance(); new Apollo::Region(1, "a", 3, 0, info); } catch (...) { abort(); }
    _exit(0);
  }
  int st;
  waitpid(p, &st, 0);
  return WIFEXITED(st) && WEXITSTATUS(st) == 0;
}
int main() {
  bool ok = status("PolicyNet,lr=0.1,beta=0.5,beta1=0.5,beta2=0.9,threshold=0.1");
  bool refused = !status("PolicyNet,lr=0.1,beta=0.5,beta1=0.5,beta2=0.9,treshold=0.1");
  printf("accepted %d, misspelt refused %d\n", ok, refused);
  return ok && refused ? 0 : 1;
}
