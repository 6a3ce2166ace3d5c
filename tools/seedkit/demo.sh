#!/bin/bash
# Runs in /repo: builds the library from the current tree with demo.cc and runs it.
d=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
flags="-std=c++14 -O1 -g1 -w -DS2A_CORE_USE_NEW_UPB_APIS -I$repo -I$d/shim -I$repo/src/proto/upb-generated -I$d"
[ -f "$d/flags" ] && flags="$flags $(cat "$d/flags")"
export flags t d
comp() {
  o=$t/$(echo "$1" | md5sum | cut -c1-16).o
  case "$1" in
    *.c) gcc -x c $(echo $flags | sed 's/-std=c++14//') -c "$1" -o "$o" ;;
    *) g++ $flags -c "$1" -o "$o" ;;
  esac || touch "$t/failed"
}
export -f comp
{
  find "$repo/src" -name '*.cc' | grep -Ev '_test\.cc$|_test_util\.cc$|/test_util/|fake_access_token_manager\.cc$|_fuzz'
  find "$repo/src" -name '*.upb.c'
  ls "$d/shim/upb_shim.c" "$d/demo.cc" "$d/refcrypto.cc"
} | xargs -P 8 -I{} bash -c 'comp {}'
[ -e "$t/failed" ] && { echo "demo: build failed"; exit 2; }
absl=$(pkg-config --libs absl_strings absl_synchronization absl_status absl_statusor absl_flat_hash_map absl_flat_hash_set absl_bad_variant_access absl_bad_optional_access absl_variant absl_str_format absl_hash)
g++ $flags -o "$t/demo" "$t"/*.o $absl -lcrypto -lpthread $(cat "$d/link" 2>/dev/null) || exit 2
timeout 200 "$t/demo"
rc=$?
echo "demo: exit $rc"
exit $rc
