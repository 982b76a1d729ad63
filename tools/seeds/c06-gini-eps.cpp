// A deep enough tree returns the best policy of every feature vector it was trained with,
// also of a single one among many of another class.
#include "apollo/Apollo.h"
#include "apollo/Region.h"
#include "apollo/Dataset.h"
#include "apollo/PolicyModel.h"
#include <cstdio>
static void ins(Apollo::Dataset &d, std::vector<float> f, int p, double m) { d.insert(f, p, m); }
int main() {
  Apollo::instance();
  auto *r = new Apollo::Region(1, "a", 2, 0, "DecisionTree,max_depth=50");
  const int N = 60;
  for (int i = 0; i < N; ++i)
    for (int p = 0; p < 2; ++p) ins(r->dataset, {float(i)}, p, (p == (i == 33)) ? 1.0 : 2.0);
  r->train(0);
  int bad = 0;
  for (int i = 0; i < N; ++i) {
    std::vector<float> f{float(i)};
    if (r->model->getIndex(f) != (i == 33)) ++bad;
  }
  printf("%d wrong\n", bad);
  return bad ? 1 : 0;
}
