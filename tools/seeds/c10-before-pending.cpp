// Measurements still pending at shutdown are in the stored dataset.
#include "cuda_runtime.h"
#include "apollo/Apollo.h"
#include "apollo/Region.h"
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <sstream>
int main() {
  setenv("APOLLO_PERSISTENT_DATASETS", "1", 1);
  Apollo::instance();
  auto *r = new Apollo::Region(1, "a", 2, 0, "RoundRobin");
  for (int i = 0; i < 2; ++i) {
    auto *c = r->begin(Apollo::Region::TIMING_CUDA_ASYNC);
    r->setFeature(c, 41.f + i);
    r->getPolicyIndex(c);
    r->end(c);
    stopOf(i)->ms = 1000;
    stopOf(i)->polls = 3;      // the device finishes later
  }
  delete r;
  std::ifstream f(".apollo/datasets/Dataset-a.yaml");
  std::stringstream s;
  s << f.rdbuf();
  bool ok = s.str().find("41") != std::string::npos && s.str().find("42") != std::string::npos;
  printf("%s\n", s.str().c_str());
  fflush(stdout);
  _Exit(ok ? 0 : 1);
}
