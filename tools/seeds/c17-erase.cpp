// Kokkos contexts that nest are each measured once, at their own end.
#include <map>
#include <string>
#include <vector>
#include <fstream>
#include <memory>
#include <functional>
#include <iostream>
#include <sstream>
#define private public
#include "impl/Kokkos_Profiling_Interface.hpp"
#include "apollo/Apollo.h"
#include "apollo/Region.h"
#include "apollo/Dataset.h"
#include <cstdio>
#include <cstring>
using namespace Kokkos::Tools::Experimental;
extern "C" {
void kokkosp_parse_args(int, char **);
void kokkosp_init_library(const int, const uint64_t, const uint32_t, void *);
void kokkosp_declare_output_type(const char *, const size_t, VariableInfo *);
void kokkosp_request_values(size_t, size_t, VariableValue *, size_t, VariableValue *);
void kokkosp_end_context(size_t);
}
static int64_t A[] = {1, 2, 3}, B[] = {7, 8};
int main() {
  char opt[] = "x";
  char *av[] = {opt, nullptr};
  kokkosp_parse_args(1, av);
  kokkosp_init_library(0, 20200625, 0, nullptr);
  VariableInfo I[2];
  memset(&I, 0, sizeof I);
  int64_t *vals[] = {A, B};
  size_t n[] = {3, 2};
  const char *nm[] = {"va", "vb"};
  for (int i = 0; i < 2; ++i) {
    I[i].type = ValueType::kokkos_value_int64;
    I[i].category = StatisticalCategory::kokkos_value_categorical;
    I[i].valueQuantity = CandidateValueType::kokkos_value_set;
    I[i].candidates.set.size = n[i];
    I[i].candidates.set.values.int_value = vals[i];
    kokkosp_declare_output_type(nm[i], 10 + i, &I[i]);
  }
  auto ask = [&](size_t ctx, int i) {
    VariableValue v[1];
    v[0].type_id = 10 + i;
    v[0].metadata = &I[i];
    kokkosp_request_values(ctx, 0, nullptr, 1, v);
  };
  // two nests: two policies of the outer, two of the inner problem get measured
  ask(1, 0); ask(2, 1); kokkosp_end_context(2); kokkosp_end_context(1);
  ask(3, 0); ask(4, 1); kokkosp_end_context(4); kokkosp_end_context(3);
  int bad = 0, seen = 0;
  for (auto &r : Apollo::instance()->regions) {
    ++seen;
    if (r.second->dataset.size() != 2) { printf("%s has %d entries\n", r.first.c_str(), (int)r.second->dataset.size()); bad = 1; }
  }
  fflush(stdout);
  _Exit(bad || seen != 2);
}
