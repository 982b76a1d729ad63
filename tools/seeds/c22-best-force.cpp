// Best-policy tracing: every training leaves its file.
#include "apollo/Apollo.h"
#include "apollo/Region.h"
#include "apollo/Dataset.h"
#include <cstdio>
#include <cstdlib>
#include <unistd.h>
int main() {
  setenv("APOLLO_TRACE_BEST_POLICIES", "1", 1);
  Apollo::instance();
  auto *r = new Apollo::Region(1, "a", 2, 0, "DecisionTree");
  std::vector<float> f{1.f};
  r->dataset.insert(f, 1, 2.0);
  r->train(3);
  std::vector<float> g{2.f};
  r->dataset.insert(g, 0, 2.0);
  r->train(4, true, true);
  const char *n[] = {"step-3-rank-0-a-best_policies.txt", "step-4-rank-0-a-best_policies.txt"};
  int bad = 0;
  for (auto x : n) if (access(x, F_OK)) { printf("no %s\n", x); bad = 1; }
  return bad;
}
