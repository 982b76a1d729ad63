// Single model: a later training uses the data the regions have then.
#include "apollo/Apollo.h"
#include "apollo/Region.h"
#include "apollo/Dataset.h"
#include "apollo/PolicyModel.h"
#include <cstdio>
#include <cstdlib>
static void ins(Apollo::Dataset &d, std::vector<float> f, int p, double m) { d.insert(f, p, m); }
int main() {
  setenv("APOLLO_SINGLE_MODEL", "1", 1);
  setenv("APOLLO_REGION_MODEL", "0", 1);
  auto *ap = Apollo::instance();
  auto *a = new Apollo::Region(1, "a", 2, 0, "DecisionTree"), *b = new Apollo::Region(1, "b", 2, 0, "DecisionTree");
  ins(a->dataset, {1.f}, 0, 1.0);
  ins(b->dataset, {1.f}, 1, 2.0);
  ap->train(0);
  std::vector<float> f{1.f};
  int p = a->model->getIndex(f);
  a->dataset.clear();
  b->dataset.clear();
  ins(a->dataset, {1.f}, 0, 5.0);
  ins(b->dataset, {1.f}, 1, 4.0);
  ap->train(1);
  printf("%d, %d %d\n", p, a->model->getIndex(f), b->model->getIndex(f));
  return p == 0 && a->model->getIndex(f) == 1 && b->model->getIndex(f) == 1 ? 0 : 1;
}
