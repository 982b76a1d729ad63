// RoundRobin hands out only policies of the region, also with many policies.
#include "apollo/Apollo.h"
#include "apollo/Region.h"
#include <cstdio>
int main() {
  Apollo::instance();
  auto *r = new Apollo::Region(1, "a", 200, 0, "RoundRobin");
  for (int i = 0; i < 400; ++i) {
    r->begin({1.f});
    int p = r->getPolicyIndex();
    r->end(1.0);
    if (p < 0 || p >= 200) { printf("request %d got %d\n", i, p); return 1; }
  }
  return 0;
}
