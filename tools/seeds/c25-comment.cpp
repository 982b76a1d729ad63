// Comments of any number of lines are skipped when a dataset is read.
#include "apollo/Apollo.h"
#include "apollo/Dataset.h"
#include <cstdio>
#include <sstream>
int main() {
  Apollo::instance();
  Apollo::Dataset d, e;
  std::vector<float> f{1.5f, -2.f};
  d.insert(f, 1, 0.25);
  std::ostringstream o;
  d.store(o);
  std::istringstream i("# from another tool\n# second line\n# third line\n" + o.str());
  e.load(i);
  return e.size() == 1 ? 0 : 1;
}
