#!/bin/bash
# Compiler wrapper: instrument when compiling, link the recording runtime.
here=$(dirname "$(readlink -f "$0")")
args=(); compile=0
for a in "$@"; do
  case "$a" in
    -lgomp|-lomp) ;;
    -c) compile=1; args+=("$a") ;;
    *) args+=("$a") ;;
  esac
done
if [ $compile = 1 ]; then
  exec g++ "${args[@]}" -O0 -fno-ipa-sra -fopenmp -fsanitize=thread --param tsan-instrument-func-entry-exit=0
fi
link=()
for a in "${args[@]}"; do [ "$a" = -fopenmp ] || link+=("$a"); done
exec g++ "${link[@]}" "$VT_RUNTIME" -Wl,-Bsymbolic -Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset,--wrap=free -ldl -lpthread
