g++ -std=c++17 -O1 $inc -DENABLE_JIT_DTREE "$here/demo.cpp" "$repo/_build/jit/src/libapollo.a" -ldl -o "$w/demo" || exit 2
cd "$w" && timeout 120 ./demo
