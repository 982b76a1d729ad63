// Training through the C interface collects finished asynchronous executions like Region::train.
#include "cuda_runtime.h"
#include "apollo/Apollo.h"
#include "apollo/Region.h"
#include <cstdio>
int main() {
  Apollo::instance();
  int n[2];
  for (int i = 0; i < 2; ++i) {
    auto *r = new Apollo::Region(1, i ? "a" : "b", 2, 0, "DecisionTree");
    auto *c = r->begin(Apollo::Region::TIMING_CUDA_ASYNC);
    r->setFeature(c, 1.f);
    r->getPolicyIndex(c);
    r->end(c);
    stopOf(i)->ms = 1000;
    stopOf(i)->done = true;
    if (i) __apollo_region_train(r, 0); else r->train(0);
    n[i] = r->dataset.size();
  }
  printf("%d %d\n", n[0], n[1]);
  return n[0] == 1 && n[1] == 1 ? 0 : 1;
}
