# the library with a stand-in for the CUDA event interface (cuda_runtime.h beside this script)
i=0
for f in $(find "$repo/src" -name '*.cpp' ! -name 'RegressionTree.cpp' ! -name 'TimerHipAsync.cpp' ! -path '*/kokkos/*') "$here/demo.cpp"; do
  i=$((i+1))
  g++ -std=c++17 -O0 -DENABLE_CUDA -I"$here" $inc -c "$f" -o "$w/$i.o" || touch "$w/bad" &
done
wait
[ -e "$w/bad" ] && exit 2
g++ "$w"/*.o -ldl -o "$w/demo" || exit 2
cd "$w" && timeout 120 ./demo
