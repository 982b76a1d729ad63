// The recorded time is the elapsed time, however long. The clock is interposed.
#include "apollo/Apollo.h"
#include "apollo/Region.h"
#include <cstdio>
#include <ctime>
static long now_s = 1000;
extern "C" int clock_gettime(clockid_t, struct timespec *t) noexcept { t->tv_sec = now_s; t->tv_nsec = 0; return 0; }
int main() {
  Apollo::instance();
  auto *r = new Apollo::Region(1, "a", 2, 0, "DecisionTree");
  for (long d : {5L, 7200L, 100000L}) {
    auto *c = r->begin();
    r->setFeature(c, float(d));
    r->getPolicyIndex(c);
    now_s += d;
    r->end(c);
  }
  int bad = 0;
  for (auto &t : r->dataset.toVectorOfTuples())
    if (std::get<2>(t) != std::get<0>(t)[0]) { printf("%g recorded as %g\n", std::get<0>(t)[0], std::get<2>(t)); ++bad; }
  return bad || r->dataset.size() != 3 ? 1 : 0;
}
