// A compiled tree decides like the tree: a feature equal to the threshold goes right.
#include "apollo/Apollo.h"
#include "apollo/Region.h"
#include "apollo/Dataset.h"
#include "apollo/PolicyModel.h"
#include <cstdio>
static void ins(Apollo::Dataset &d, std::vector<float> f, int p, double m) { d.insert(f, p, m); }
int main() {
  Apollo::instance();
  auto *r = new Apollo::Region(1, "a", 2, 0, "DecisionTree");
  ins(r->dataset, {1.f}, 0, 1.0);
  ins(r->dataset, {3.f}, 1, 1.0);
  r->train(0);
  int p[5];
  float x[5] = {1.f, 1.9f, 2.f, 2.1f, 3.f};
  for (int i = 0; i < 5; ++i) { std::vector<float> f{x[i]}; p[i] = r->model->getIndex(f); }
  // what the interpreted tree answers for the same training
  int want[5] = {0, 0, 1, 1, 1}, bad = 0;
  for (int i = 0; i < 5; ++i) bad += p[i] != want[i];
  printf("%d different\n", bad);
  return bad ? 1 : 0;
}
