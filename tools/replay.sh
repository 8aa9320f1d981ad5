#!/bin/bash
# replay.sh FILE [plain|asan|valgrind]: runs one counterexample natively against /repo's current sources
cd "$(dirname "$0")/.." ; F=$(readlink -f "$1"); K=${2:-plain}; E=$(sed -n 's/.* entry \([^ ]*\).*/\1/p' "$F" | head -1); [ -n "$3" ] && E=$3
W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
FL=""; [ $K = asan ] && FL="-fsanitize=address,undefined"
sx/native.sh $W $FL || exit 2
T=$(awk '$1=="P"&&$2=="threads"{print $3}' "$F"); export OMP_NUM_THREADS=${T:-1}
cd $W; if [ $K = valgrind ]; then valgrind -q ./replay $E "$F"; else ./replay $E "$F"; fi
