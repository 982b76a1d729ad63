// The best policy is the one with the lowest average, also when another is close.
#include "apollo/Apollo.h"
#include "apollo/Dataset.h"
#include <cstdio>
static void ins(Apollo::Dataset &d, std::vector<float> f, int p, double m) { d.insert(f, p, m); }
int main() {
  Apollo::Dataset d;
  ins(d, {1.f}, 0, 1.0);
  ins(d, {1.f}, 1, 1.0 - 1e-4);
  ins(d, {1.f}, 2, 1.0 - 2e-4);
  std::vector<std::vector<float>> f;
  std::vector<int> p;
  std::map<std::vector<float>, std::pair<int, double>> m;
  d.findMinMetricPolicyByFeatures(f, p, m);
  printf("best %d\n", p[0]);
  return p.size() == 1 && p[0] == 2 && m.begin()->second.first == 2 ? 0 : 1;
}
