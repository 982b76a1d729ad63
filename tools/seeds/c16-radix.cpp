// All combinations of a Kokkos tuning problem are offered, also with a variable of a single
// candidate among others.
#include "impl/Kokkos_Profiling_Interface.hpp"
#include <cstdio>
#include <cstring>
#include <set>
#include <vector>
#include <utility>
using namespace Kokkos::Tools::Experimental;
extern "C" {
void kokkosp_parse_args(int, char **);
void kokkosp_init_library(const int, const uint64_t, const uint32_t, void *);
void kokkosp_declare_output_type(const char *, const size_t, VariableInfo *);
void kokkosp_request_values(size_t, size_t, VariableValue *, size_t, VariableValue *);
void kokkosp_end_context(size_t);
}
static int64_t A[] = {1, 2, 3}, B[] = {7}, C[] = {4, 5};
int main() {
  char opt[] = "x";
  char *av[] = {opt, nullptr};
  kokkosp_parse_args(1, av);
  kokkosp_init_library(0, 20200625, 0, nullptr);
  VariableInfo I[3];
  memset(&I, 0, sizeof I);
  int64_t *vals[] = {A, B, C};
  size_t n[] = {3, 1, 2};
  const char *nm[] = {"va", "vb", "vc"};
  for (int i = 0; i < 3; ++i) {
    I[i].type = ValueType::kokkos_value_int64;
    I[i].category = StatisticalCategory::kokkos_value_categorical;
    I[i].valueQuantity = CandidateValueType::kokkos_value_set;
    I[i].candidates.set.size = n[i];
    I[i].candidates.set.values.int_value = vals[i];
    kokkosp_declare_output_type(nm[i], 10 + i, &I[i]);
  }
  std::set<std::vector<int64_t>> seen;
  for (size_t c = 1; c <= 6; ++c) {
    VariableValue v[3];
    for (int i = 0; i < 3; ++i) { v[i].type_id = 10 + i; v[i].metadata = &I[i]; }
    kokkosp_request_values(c, 0, nullptr, 3, v);
    seen.insert({v[0].value.int_value, v[1].value.int_value, v[2].value.int_value});
    kokkosp_end_context(c);
  }
  printf("%zu of 6 combinations\n", seen.size());
  fflush(stdout);
  _Exit(seen.size() == 6 ? 0 : 1);
}
