// Collective training: a rank without own measurements gets those of the others.
#include <mpi.h>
#include "apollo/Apollo.h"
#include "apollo/Region.h"
#include "apollo/Dataset.h"
#include <cstdio>
static void ins(Apollo::Dataset &d, std::vector<float> f, int p, double m) { d.insert(f, p, m); }
int main(int c, char **v) {
  MPI_Init(&c, &v);
  int rank;
  MPI_Comm_rank(MPI_COMM_WORLD, &rank);
  int bad = 0;
  auto *ap = Apollo::instance();
  auto *r = new Apollo::Region(1, "a", 3, 0, "DecisionTree");
  if (rank != 1) ins(r->dataset, {float(rank)}, rank, 1.0 + rank);
  ap->train(0);
  bad = r->dataset.size() != 2;
  if (bad) printf("rank %d has %d entries\n", rank, (int)r->dataset.size());
  int any;
  MPI_Allreduce(&bad, &any, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
  MPI_Finalize();
  fflush(stdout);
  _Exit(any);
}
