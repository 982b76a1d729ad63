// A new measurement removes no other entry.
#include "apollo/Apollo.h"
#include "apollo/Region.h"
#include "apollo/Dataset.h"
#include <cstdio>
int main() {
  Apollo::instance();
  auto *r = new Apollo::Region(2, "a", 3, 0, "RoundRobin");
  for (int i = 0; i < 1500; ++i) {
    std::vector<float> f{float(i), float(-i)};
    r->dataset.insert(f, i % 3, 1.0 + i);
  }
  printf("%d entries\n", (int)r->dataset.size());
  return r->dataset.size() == 1500 ? 0 : 1;
}
