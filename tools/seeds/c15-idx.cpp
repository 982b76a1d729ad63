// Rows of the trace carry the number of their own execution.
#include "cuda_runtime.h"
#include "apollo/Apollo.h"
#include "apollo/Region.h"
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <sstream>
#include <set>
#include <dirent.h>
int main() {
  setenv("APOLLO_TRACE_CSV", "1", 1);
  Apollo::instance();
  auto *r = new Apollo::Region(1, "a", 2, 0, "RoundRobin");
  for (int i = 0; i < 3; ++i) {
    auto *c = r->begin(Apollo::Region::TIMING_CUDA_ASYNC);
    r->setFeature(c, float(i));
    r->getPolicyIndex(c);
    r->end(c);
    stopOf(i)->ms = 1000;
  }
  for (int i = 0; i < 3; ++i) stopOf(i)->done = true;
  r->collectPendingContexts();
  delete r;
  std::set<std::string> idx;
  int rows = 0;
  DIR *d = opendir(".apollo/traces");
  while (dirent *e = readdir(d)) {
    std::string f = e->d_name;
    if (f.find("-region-a-") == std::string::npos) continue;
    std::ifstream in(".apollo/traces/" + f);
    std::string l;
    getline(in, l);
    while (getline(in, l)) {
      std::istringstream s(l);
      std::string a, b, c, i;
      s >> a >> b >> c >> i;
      ++rows;
      idx.insert(i);
      puts(l.c_str());
    }
  }
  fflush(stdout);
  _Exit(rows == 3 && idx.size() == 3 ? 0 : 1);
}
