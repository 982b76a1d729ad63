// Collective training: every time it happens all ranks' measurements arrive.
#include <mpi.h>
#include "apollo/Apollo.h"
#include "apollo/Region.h"
#include "apollo/Dataset.h"
#include <cstdio>
int main(int c, char **v) {
  MPI_Init(&c, &v);
  int rank;
  MPI_Comm_rank(MPI_COMM_WORLD, &rank);
  auto *ap = Apollo::instance();
  auto *r = new Apollo::Region(1, "a", 3, 0, "PolicyNet");
  int bad = 0, any;
  for (int i = 0; i < 5; ++i) {
    std::vector<float> f{float(10 * i + rank)};
    r->dataset.insert(f, rank, 1.0);
    ap->train(i);
    if (r->dataset.size() != size_t(3 * (i + 1))) bad = 1;
  }
  if (bad) printf("rank %d has %d entries\n", rank, (int)r->dataset.size());
  MPI_Allreduce(&bad, &any, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
  MPI_Finalize();
  fflush(stdout);
  _Exit(any);
}
