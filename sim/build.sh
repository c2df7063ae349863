#!/bin/bash
# Builds the simulator for one flavour from the current tree of /repo.
# usage: build.sh FLAVOUR OUTDIR   (FLAVOUR: asan | pool)
set -e
flavour=$1 out=$2 repo=${REPO:-/repo}
here=$(cd "$(dirname "$0")" && pwd)
[ -n "$flavour" ] && [ -n "$out" ]
mkdir -p "$out/o" "$out/s"
inc="-I. -I./common/util -I./common -I./dns -I./http -I./app -I./bin -I./test"
base="-O1 -g -w -fno-pie -fno-omit-frame-pointer -U_FORTIFY_SOURCE -D_FORTIFY_SOURCE=0 -fsanitize-coverage=trace-pc -fno-common -fno-strict-aliasing -fno-builtin-printf"
case $flavour in
asan) node="$base -fsanitize=address,bounds -fno-sanitize-recover=bounds -DMEM_BY_SYSCALL"; link="-fsanitize=address,undefined" ;;
pool) node="${base/-O1/-O2}"; link="" ;;   # as the program is built: calls in tail position take no stack
*) echo "unknown flavour" >&2; exit 2 ;;
esac
simf="-O2 -g -w -fno-pie -DFLAVOUR_$flavour $SIMF_EXTRA"
(
  cd "$repo/src"
  inc="$inc $(find . -type d | LC_ALL=C sort | sed 's/^/-I/' | tr '\n' ' ')"
  for f in $(find . -name '*.c' | LC_ALL=C sort); do o=$(echo "$f" | sed 's|^\./||; s|/|_|g; s|\.c$|.o|'); echo "gcc -c $node $inc $f -o $out/o/$o"; done
  for f in "$here"/*.c; do echo "gcc -c $simf $f -o $out/s/$(basename "$f" .c).o"; done
) > "$out/cmds"
(cd "$repo/src" && xargs -P 8 -d '\n' -I{} sh -c '{}' < "$out/cmds")
ld -r -o "$out/node.o" $(grep -o "$out/o/[^ ]*\.o" "$out/cmds")
# redirect every known system call of the node
nm -g --defined-only "$out/s/sys.o" | awk '$3 ~ /^sim_/ {print substr($3,5), $3}' > "$out/redef"
for n in C S; do
  cp "$out/redef" "$out/redef$n"; echo "main node${n}_main" >> "$out/redef$n"
  objcopy --keep-global-symbol=main "$out/node.o" "$out/k$n.o"
  objcopy --redefine-syms="$out/redef$n" --rename-section ".data=node${n}_data" \
    --rename-section ".bss=node${n}_bss,alloc,load,data,contents" "$out/k$n.o" "$out/node$n.o"
done
# symbols the node takes from outside the simulator (reported, not fatal)
nm -u "$out/nodeC.o" | awk '{print $2}' | grep -v -E '^(sim_|__asan|__ubsan|__sanitizer)' | LC_ALL=C sort > "$out/externals"
gcc -no-pie $link -o "$out/sim.new" "$out"/s/*.o "$out/nodeC.o" "$out/nodeS.o" -lssl -lcrypto -lpthread -lm -ldl -Wl,--export-dynamic-symbol=fopen -Wl,--export-dynamic-symbol=fopen64 -Wl,--export-dynamic-symbol=time
mv "$out/sim.new" "$out/sim"
