// A training with nothing recorded yet collects the finished executions and trains on them.
#include "cuda_runtime.h"
#include "apollo/Apollo.h"
#include "apollo/Region.h"
#include <cstdio>
int main() {
  Apollo::instance();
  auto *r = new Apollo::Region(1, "a", 2, 0, "DecisionTree");
  auto *c = r->begin(Apollo::Region::TIMING_CUDA_ASYNC);
  r->setFeature(c, 1.f);
  r->getPolicyIndex(c);
  r->end(c);
  stopOf(0)->ms = 1000;
  stopOf(0)->done = true;
  r->train(0);
  printf("%d recorded, trainable %d\n", (int)r->dataset.size(), (int)r->model->isTrainable());
  return r->dataset.size() == 1 && !r->model->isTrainable() ? 0 : 1;
}
