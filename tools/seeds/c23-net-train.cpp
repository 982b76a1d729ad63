// Training again and again does not take more and more memory.
#include "apollo/Apollo.h"
#include "apollo/Region.h"
#include "apollo/Dataset.h"
#include <cstdio>
#include <malloc.h>
int main() {
  Apollo::instance();
  auto *r = new Apollo::Region(1, "a", 2, 0, "PolicyNet");
  for (int i = 0; i < 40; ++i) {
    std::vector<float> f{float(i)};
    r->dataset.insert(f, i % 2, 0.5);
  }
  size_t first = 0, last = 0;
  for (int i = 0; i < 300; ++i) {
    r->train(i);
    last = mallinfo2().uordblks;
    if (i == 100) first = last;
  }
  printf("%zu bytes in use after 100, %zu after 300 trainings\n", first, last);
  return last > first + 8000 ? 1 : 0;
}
