mpicxx -std=c++17 -O1 -DENABLE_MPI -I"$repo/_build/mpi" $inc "$here/demo.cpp" "$repo/_build/mpi/src/libapollo.a" -ldl -o "$w/demo" || exit 2
cd "$w" && APOLLO_COLLECTIVE_TRAINING=1 APOLLO_LOCAL_TRAINING=0 timeout 120 mpirun --oversubscribe -n 3 ./demo
