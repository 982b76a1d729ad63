// The model trains as soon as the dataset has the minimum number of entries.
#include "apollo/Apollo.h"
#include "apollo/Region.h"
#include "apollo/PolicyModel.h"
#include <cstdio>
int main() {
  Apollo::instance();
  auto *r = new Apollo::Region(1, "a", 2, 3, "DecisionTree");
  for (int i = 0; i < 3; ++i) {
    auto *c = r->begin();
    r->setFeature(c, float(i));
    r->getPolicyIndex(c);
    r->end(c, 1.0);
    if (r->model->isTrainable() != (i < 2)) { printf("wrong after %d\n", i + 1); return 1; }
  }
  return 0;
}
