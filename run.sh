#!/bin/bash
# Usage: run.sh <property> [quick|thorough]   builds the harness against /repo and runs one check
#        run.sh build                         only builds it
#        run.sh replay <file>                 runs a recorded violation again
cd "$(dirname "$0")" || exit 2
export VERIF_ROOT="$PWD"
id="$1"; tier="${2:-${VERIF_TIER:-quick}}"
# An interpreter runs the enumeration, also as on other platforms.
if [ "$id" = C24 ] || [ "$id" = C27 ]; then exec python3 tools/memory.py "$id" "$tier"; fi
if [ "$id" = replay ] && [[ "$2" == *C24* || "$2" == *C27* ]]; then exec python3 tools/memory.py replay "$2"; fi
# The features of the library are chosen by building it again and again.
if [ "$id" = C26 ]; then exec python3 tools/features.py "$tier"; fi
if [ "$id" = replay ] && [[ "$2" == *C26* ]]; then exec python3 tools/features.py replay "$2"; fi
# What may be declared is asked of the compiler.
if [ "$id" = C29 ]; then exec python3 tools/declare.py "$tier"; fi
if [ "$id" = replay ] && [[ "$2" == *C29* ]]; then exec python3 tools/declare.py replay "$2"; fi
profile=dev; dir=debug
if [ "$tier" = thorough ]; then profile=deep; dir=deep; fi
build() { (cd harness && RUSTFLAGS="$1" cargo build --offline --quiet --profile $profile -p vk 2> build.log); }
# The hook (guarded by this cfg) only sets the size of an internal buffer; the checks can do without.
build "--cfg speedy_verif -Awarnings" || build "-Awarnings" || { echo "the harness does not build against /repo:" >&2; grep -A8 '^error' harness/build.log | head -60 >&2; exit 2; }
bin="harness/target/$dir/vk"
case "$id" in
  build) exit 0 ;;
  replay) exec "$bin" replay "$2" ;;
  *) exec "$bin" check "$id" "$tier" ;;
esac
