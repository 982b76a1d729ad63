// After every training PolicyNet decides with the current weights, also when the training
// data is a single measurement.
#include "apollo/Apollo.h"
#include "apollo/Region.h"
#include "apollo/Dataset.h"
#include "apollo/PolicyModel.h"
#include <cstdio>
static void ins(Apollo::Dataset &d, std::vector<float> f, int p, double m) { d.insert(f, p, m); }
int main() {
  Apollo::instance();
  auto *r = new Apollo::Region(1, "a", 2, 0, "PolicyNet,lr=0.5");
  std::vector<float> f{3.f};
  auto share = [&](Apollo::Region *x) { int n = 0; for (int i = 0; i < 4000; ++i) n += x->model->getIndex(f) == 1; return n; };
  share(r);
  for (int t = 0; t < 30; ++t) {
    // policy 1 becomes faster and faster
    r->dataset.clear();
    ins(r->dataset, f, 1, 3.0 - 0.1 * t);
    r->train(t);
  }
  r->model->store("file");
  auto *s = new Apollo::Region(1, "b", 2, 0, "PolicyNet,load=file");
  int a = share(r), b = share(s);
  printf("policy 1: %d, with the same weights %d of 4000\n", a, b);
  return a - b < 400 && b - a < 400 ? 0 : 1;
}
