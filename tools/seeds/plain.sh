g++ -std=c++17 -O1 $inc "$here/demo.cpp" "$repo/_build/default/src/libapollo.a" -ldl -o "$w/demo" || exit 2
cd "$w" && timeout 120 ./demo
