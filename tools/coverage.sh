#!/bin/bash
# Which functions and lines of the library the quick workloads reach: runs every harness in the variant cov and reports.
cd "$(dirname "$0")/.." || exit 1
D=${1:-/tmp/cov}; mkdir -p $D; find $D -name shared -delete; find $D -name "*.profraw" -delete; H="modes digest mac kdf stream drbg random tools asym keys io par deny names net"
for h in $H; do python3 native/build.py cov $h > /dev/null || exit 1; done
for h in $H; do for w in 0 1 2 3 4 5 6 7; do mkdir -p $D/$h; LLVM_PROFILE_FILE="$D/$h-$w.profraw" timeout ${T:-900} .build/cov/$h --tier quick --scale ${SCALE:-1} --out $D/$h --worker $w --limit 300 > $D/$h.$w.log 2>&1 & done; wait; done
llvm-profdata-18 merge -o $D/all.profdata $D/*.profraw || llvm-profdata merge -o $D/all.profdata $D/*.profraw
O=""; for h in $H; do O="$O -object .build/cov/$h"; done
C=$(command -v llvm-cov-18 || command -v llvm-cov)
$C report -instr-profile $D/all.profdata ${O# -object} -show-functions=false /repo/CEX > $D/report.txt 2>$D/report.err
$C export -format=lcov -instr-profile $D/all.profdata ${O# -object} /repo/CEX > $D/all.lcov 2>>$D/report.err
tail -1 $D/report.txt
