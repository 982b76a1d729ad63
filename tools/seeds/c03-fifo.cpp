// Asynchronous executions that finish out of order: the finished ones are recorded.
#include "cuda_runtime.h"
#include "apollo/Apollo.h"
#include "apollo/Region.h"
#include <cstdio>
int main() {
  Apollo::instance();
  auto *r = new Apollo::Region(1, "a", 2, 0, "DecisionTree");
  for (int i = 0; i < 3; ++i) {
    auto *c = r->begin(Apollo::Region::TIMING_CUDA_ASYNC);
    r->setFeature(c, float(i));
    r->getPolicyIndex(c);
    r->end(c);
    stopOf(i)->ms = 1000;
  }
  stopOf(1)->done = stopOf(2)->done = true;
  r->collectPendingContexts();
  int n = r->dataset.size();
  stopOf(0)->done = true;
  r->collectPendingContexts();
  printf("%d, then %d recorded\n", n, (int)r->dataset.size());
  return n == 2 && r->dataset.size() == 3 ? 0 : 1;
}
