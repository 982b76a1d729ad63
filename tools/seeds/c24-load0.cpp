// A rank loads the latest model of its own rank.
#include <mpi.h>
#include "apollo/Apollo.h"
#include "apollo/Region.h"
#include "apollo/Dataset.h"
#include <cstdio>
#include <cstdlib>
int main(int c, char **v) {
  setenv("APOLLO_COLLECTIVE_TRAINING", "0", 1);
  setenv("APOLLO_LOCAL_TRAINING", "1", 1);
  setenv("APOLLO_STORE_MODELS", "1", 1);
  MPI_Init(&c, &v);
  int rank;
  MPI_Comm_rank(MPI_COMM_WORLD, &rank);
  Apollo::instance();
  auto *r = new Apollo::Region(1, "a", 3, 0, "RandomForest");
  std::vector<float> f{1.f};
  r->dataset.insert(f, rank, 1.0);
  r->train(0);
  delete r;
  MPI_Barrier(MPI_COMM_WORLD);
  r = new Apollo::Region(1, "a", 3, 0, "RandomForest,load");
  r->begin({1.f});
  int p = r->getPolicyIndex();
  r->end(1.0);
  int bad = p != rank, any;
  if (bad) printf("rank %d decides %d\n", rank, p);
  MPI_Allreduce(&bad, &any, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
  MPI_Finalize();
  fflush(stdout);
  _Exit(any);
}
