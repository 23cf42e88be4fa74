#!/bin/bash
# usage: run.sh [REPO]   Runs every demonstration against the sources of REPO (default /repo).
repo=${1:-/repo}; here=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d)
trap 'rm -rf -- "$t"' EXIT
clang -g -std=c99 -D_GNU_SOURCE -fsanitize=address,undefined -fno-sanitize=nonnull-attribute -fno-sanitize-recover=all -I$repo/sml/include \
  $repo/sml/src/*.c $here/demo.c -luuid -Wl,--wrap=malloc,--wrap=free,--wrap=realloc -o $t/demo 2>$t/err || { cat $t/err; exit 2; }
clang -g -D_GNU_SOURCE -fsanitize=address,undefined -fno-sanitize=nonnull-attribute -fno-sanitize-recover=all -I$repo/sml/include \
  $repo/sml/src/*.c $repo/examples/sml_server.c -luuid -lm -o $t/server 2>$t/err || { cat $t/err; exit 2; }
rc=0
export ASAN_OPTIONS=detect_leaks=0
for c in tl_overflow tl_list16 tl_254 tl_dirty num_zero value_wide time_default time_list body_tag file_many objlist path_empty dzg msg_leak hex_odd hex_empty resync read_zero depth ppv_err seq_err; do
  timeout 60 $t/demo $c >/dev/null 2>$t/err; r=$?
  [ $r = 0 ] && echo "ok      $c" || { rc=1; echo "DEFECT  $c (exit $r) $(grep -m1 -E 'runtime error|ERROR: Addr' $t/err | sed 's/^.*src/src/')"; }
done
for f in $here/server_*.hex; do
  python3 -c "import sys;sys.stdout.buffer.write(bytes.fromhex(open(sys.argv[1]).read()))" $f | timeout 20 $t/server - >/dev/null 2>$t/err; r=$?
  [ $r = 0 ] && echo "ok      $(basename $f)" || { rc=1; echo "DEFECT  $(basename $f) (exit $r) $(grep -m1 -E 'runtime error|ERROR: Addr' $t/err)"; }
done
exit $rc
