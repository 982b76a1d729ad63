// Two regions explored round robin: the requests of one must not move the other.
#include "apollo/Apollo.h"
#include "apollo/Region.h"
#include <cstdio>
int main() {
  Apollo::instance();
  auto *a = new Apollo::Region(0, "a", 3, 0, "RoundRobin"), *b = new Apollo::Region(0, "b", 2, 0, "RoundRobin");
  int bad = 0;
  for (int i = 0; i < 12; ++i) {
    auto *c = a->begin();
    int p = a->getPolicyIndex(c);
    if (p != i % 3) ++bad;
    if (i % 2) {
      auto *d = b->begin();
      if (b->getPolicyIndex(d) != (i / 2) % 2) ++bad;
      b->end(d, 1.0);
    }
    a->end(c, 1.0);
  }
  printf("%d wrong choices\n", bad);
  return bad ? 1 : 0;
}
