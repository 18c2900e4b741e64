#!/bin/bash
# build.sh OUTDIR [san] : compiles /repo/decoder (instrumented) and the simulator into OUTDIR
set -e
O=$1; R=${REPO:-/repo}/decoder; H=$(cd "$(dirname "$0")" && pwd); mkdir -p "$O/obj"
if [ "$2" = trace ]; then CF="-w -O1 -g -D_X86_ -fsanitize-coverage=trace-pc-guard"; XF="-O2 -DSIM_TRACE"; LF="-no-pie"
elif [ "$2" = san ]; then
  CF="-w -O1 -g1 -D_X86_ -fno-omit-frame-pointer -fsanitize=address,bounds -fno-sanitize-recover=bounds -fsanitize-coverage=trace-pc-guard"
  XF="-O1 -DSIM_DIRECT -fsanitize=address"; LF="-fsanitize=address,undefined"
else
  CF="-w -O2 -g1 -D_X86_ -fsanitize-coverage=trace-pc-guard"; XF="-O2 -DSIM_VARIANT"; LF="-no-pie"; V=1
fi
for f in core host world props main; do clang++ -std=c++17 -g -w $XF -I$R/x86_64 -I$R -c "$H/$f.cpp" -o "$O/$f.o" & P="$P $!"; done
ls $R/*.c | xargs -P8 -I{} sh -c 'clang '"$CF -I$R/x86_64 -I$R"' -c {} -o '"$O"'/obj/$(basename {} .c).o'
if [ "$V" ]; then   # a second copy of the library in which every automatic variable starts with a pattern instead of old stack contents
  mkdir -p "$O/obj2"
  ls $R/*.c | xargs -P8 -I{} sh -c 'clang '"$CF -ftrivial-auto-var-init=pattern -I$R/x86_64 -I$R"' -c {} -o '"$O"'/obj2/$(basename {} .c).o'
  ld -r -o "$O/obj2/all.ro" "$O"/obj2/*.o
  nm --defined-only -g "$O/obj2/all.ro" | awk '{print $3, "v2_" $3}' > "$O/obj2/syms"
  objcopy --redefine-syms="$O/obj2/syms" "$O/obj2/all.ro" "$O/v2.o"
fi
for p in $P; do wait $p; done
clang++ $LF "$O"/*.o "$O"/obj/*.o -lm -o "$O/simrun"
