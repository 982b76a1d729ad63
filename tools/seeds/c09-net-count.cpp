// A PolicyNet stored and loaded keeps its threshold behaviour: its average reward is the
// one of the stored network.
#include "apollo/Apollo.h"
#include "apollo/Region.h"
#include "apollo/Dataset.h"
#include "apollo/PolicyModel.h"
#include <cstdio>
static void ins(Apollo::Dataset &d, std::vector<float> f, int p, double m) { d.insert(f, p, m); }
int main() {
  Apollo::instance();
  const char *info = "PolicyNet,threshold=0.6,beta=0.9";
  auto *a = new Apollo::Region(1, "a", 3, 0, info);
  // rewards exp(-metric): on average 0.7 after the correction for the number of trainings
  ins(a->dataset, {1.f}, 0, 0.3);
  ins(a->dataset, {1.f}, 1, 0.4);
  ins(a->dataset, {1.f}, 2, 0.38);
  a->train(0);
  a->train(1);
  a->model->store("file");
  auto *b = new Apollo::Region(1, "b", 3, 0, std::string(info) + ",load=file");
  int na = 0, nb = 0;
  std::vector<float> f{1.f};
  for (int i = 0; i < 600; ++i) {
    na += a->model->getIndex(f) != 0;
    nb += b->model->getIndex(f) != 0;
  }
  printf("not policy 0: %d stored, %d loaded\n", na, nb);
  return (na > 0) == (nb > 0) ? 0 : 1;
}
