// A fractional threshold is honoured: below it PolicyNet returns policy 0 only.
#include "apollo/Apollo.h"
#include "apollo/Region.h"
#include "apollo/PolicyModel.h"
#include <cstdio>
int main() {
  Apollo::instance();
  auto *r = new Apollo::Region(1, "a", 4, 0, "PolicyNet,threshold=0.5");
  std::vector<float> f{1.f};
  int n = 0;
  for (int i = 0; i < 500; ++i) n += r->model->getIndex(f) != 0;
  printf("%d choices other than 0\n", n);
  return n ? 1 : 0;
}
