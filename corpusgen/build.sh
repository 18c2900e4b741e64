#!/bin/bash
# builds the offline corpus generator into $1 (default /tmp/cg)
O=${1:-/tmp/cg}; mkdir -p $O; cd $O
D=/repo/decoder
ls $D/*.c | xargs -P8 -n1 sh -c 'clang -w -O1 -gline-tables-only -fno-inline -D_X86_ -fsanitize-coverage=trace-pc-guard -I'$D'/x86_64 -I'$D' -c $0 -o '$O'/$(basename $0 .c).o' || exit 1
W="-Wl,--wrap=ia_core_coder_read_bits_buf,--wrap=ia_core_coder_show_bits_buf,--wrap=ia_core_coder_read_bits_buf_32"
clang++ -std=c++17 -O1 -g -no-pie -I/verif/sim -I$D/x86_64 -I$D /verif/corpusgen/gen.cpp /verif/sim/core.cpp /verif/sim/host.cpp $O/*.o $W -lm -o $O/gen

objdump -d --no-show-raw-insn gen | grep -A1 'call.*<__wrap_' | grep -v __wrap_ | grep -oE '^ *[0-9a-f]+:' | tr -d ' :' | sort -u > ra.txt
python3 - <<'P' > sites.txt
import subprocess
ra=[int(x,16) for x in open('ra.txt')]
o=subprocess.run(['addr2line','-f','-e','gen']+[hex(x-1) for x in ra],capture_output=True,text=True).stdout.split('\n')
for i,x in enumerate(ra):
    print('%x %s %s'%(x,o[2*i].strip() or '?',o[2*i+1].split(' ')[0]))
P
wc -l sites.txt
