# Compiles the library of /repo (the current directory) and the demonstration beside this file into $T/demo.
H=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
F="-std=gnu11 -fgnu89-inline -O1 -w -fno-strict-aliasing -Ilibconcurrent/includes -Ilibconcurrent -I$H $DEMO_FLAGS"
for f in libconcurrent/concurrent/*.c libconcurrent/primitives/*.c; do
    echo "gcc $F -fsanitize=thread -c $f -o $T/$(basename $f .c).o"
done | xargs -P 8 -I{} sh -c '{}' || { echo "demo: the library does not compile"; exit 2; }
gcc $F -c "$H/demosched.c" -o "$T/demosched_rt.o" && gcc $F -c "$H/demo.c" -o "$T/demo_main.o" &&
    gcc -o "$T/demo" "$T"/*.o -lpthread -latomic -lnuma -lm || { echo "demo: build failed"; exit 2; }
