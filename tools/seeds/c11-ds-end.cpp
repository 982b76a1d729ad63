// A dataset file cut short is refused.
#include "apollo/Apollo.h"
#include "apollo/Dataset.h"
#include <cstdio>
#include <sstream>
#include <sys/wait.h>
#include <unistd.h>
static void ins(Apollo::Dataset &d, std::vector<float> f, int p, double m) { d.insert(f, p, m); }
static std::vector<std::tuple<std::vector<float>, int, double>> load(const std::string &s) {
  Apollo::Dataset d;
  std::istringstream is(s);
  d.load(is);
  return d.toVectorOfTuples();
}
int main() {
  Apollo::Dataset d;
  for (int i = 0; i < 3; ++i) ins(d, {float(i), 2.f}, i, 1.5 + i);
  std::ostringstream os;
  d.store(os);
  std::string s = os.str();
  int bad = 0;
  for (size_t k = 0; k <= s.size(); ++k) {
    pid_t p = fork();
    if (!p) {
      alarm(5);
      if (!freopen("/dev/null", "w", stderr)) {}
      try { _exit(load(s.substr(0, k)) == d.toVectorOfTuples() ? 0 : 7); } catch (...) { abort(); }
    }
    int st;
    waitpid(p, &st, 0);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 7) { printf("accepted with %zu of %zu bytes\n", k, s.size()); ++bad; }
  }
  return bad ? 1 : 0;
}
