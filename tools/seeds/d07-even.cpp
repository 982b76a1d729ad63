// The forest returns the policy with the most votes: of ten stored trees, the last decides.
#include "models/impl/RandomForestImpl.h"
#include <cstdio>
#include <fstream>
#include <string>
static void leaf(std::ofstream &o, int p) {
  o << "tree: {\n max_depth: 1,\n classes: [ " << p << ", ],\n num_features: 1,\n root: {\n gini: 0,\n num_samples: 1,\n predicted_class: "
    << p << ",\n feature_idx: -1,\n threshold: 0,\n count_per_class: {\n " << p << ": 1,\n },\n },\n data: {\n 0: { features: [ 1, ], class: "
    << p << " },\n },\n }\n ,\n";
}
int main() {
  int bad = 0;
  for (int last = 0; last < 3; ++last) {
    {
      std::ofstream o("rf.yaml");
      o << "# RandomForestImpl\nrfc: {\n num_trees: 10,\n max_depth: 1,\n classes: [ 0, 1, 2, ],\n trees: [\n";
      for (int i = 0; i < 9; ++i) leaf(o, i % 3);
      leaf(o, last);
      o << " ]\n}\n";
    }
    RandomForestImpl a(3, "rf.yaml");
    int p = a.predict({1.f});
    if (p != last) { printf("four votes for %d, predicts %d\n", last, p); bad = 1; }
  }
  return bad;
}
