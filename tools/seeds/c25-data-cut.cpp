// A stored tree lists every vector it was trained on.
#include "apollo/Apollo.h"
#include "apollo/Region.h"
#include "apollo/Dataset.h"
#include "apollo/PolicyModel.h"
#include <cstdio>
#include <fstream>
#include <string>
int main() {
  Apollo::instance();
  auto *r = new Apollo::Region(1, "a", 3, 0, "DecisionTree,max_depth=4");
  for (int i = 0; i < 40; ++i) {
    std::vector<float> f{float(i)};
    r->dataset.insert(f, i % 3, 1.0);
  }
  r->train(0);
  r->model->store("t.yaml");
  std::ifstream in("t.yaml");
  std::string s((std::istreambuf_iterator<char>(in)), {});
  int n = 0;
  for (size_t p = 0; (p = s.find("features:", p)) != std::string::npos; ++p) ++n;
  printf("%d rows\n", n);
  return n >= 40 ? 0 : 1;
}
