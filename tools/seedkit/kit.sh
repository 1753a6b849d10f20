# Builds demo.cc beside this file against the sources named in $SRCS of the
# checkout in the current directory and runs it.
set -u
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=$PWD
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
LIBDIR=/usr/lib/x86_64-linux-gnu
mkdir -p "$W/gen/farmhash" && ln -s /usr/include/farmhash.h "$W/gen/farmhash/farmhash.h"
protoc -I"$REPO" --cpp_out="$W/gen" $(cd "$REPO" && find dpf dcf pir -name '*.proto') || exit 3
# the installed protobuf has no SerializeAsCord
find "$W/gen" -name '*.pb.h' -exec sed -i -E \
  -e 's@(// \@\@protoc_insertion_point\(class_scope:[A-Za-z0-9_.]+\))@\1\n public: ::absl::Cord SerializeAsCord() const { return ::absl::Cord(::absl::string_view(SerializeAsString())); }@' \
  -e '0,/#include <string>/s@#include <string>@#include <string>\n#include "absl/strings/cord.h"@' {} +
CXX="/usr/lib/llvm-18/bin/clang++ -std=c++17 -O1 -g0 -w -Wno-c++11-narrowing ${DEFS:-} -fno-access-control -I$HERE/shim -I$REPO -I$W/gen -isystem /usr/include/android"
n=0
for s in "$HERE/demo.cc" ${SRCS:-} ; do
  n=$((n+1)); $CXX -c "$s" -o "$W/s$n.o" 2>"$W/s$n.log" &
done
if [ -z "${NOPB:-}" ]; then
  for s in $(find "$W/gen" -name '*.pb.cc'); do
    n=$((n+1)); $CXX -c "$s" -o "$W/s$n.o" 2>"$W/s$n.log" &
  done
fi
wait
A=""
for l in hash city low_level_hash raw_hash_set hashtablez_sampler random_distributions random_seed_sequences random_internal_pool_urbg random_internal_randen random_internal_randen_hwaes random_internal_randen_hwaes_impl random_internal_randen_slow random_internal_platform random_internal_seed_material random_seed_gen_exception statusor status cord bad_optional_access cordz_info cord_internal cordz_functions exponential_biased cordz_handle synchronization graphcycles_internal stacktrace strerror symbolize debugging_internal demangle_internal malloc_internal str_format_internal time strings int128 throw_delegate strings_internal base spinlock_wait civil_time time_zone raw_logging_internal log_severity bad_variant_access; do
  [ -e $LIBDIR/libabsl_$l.so ] && A="$A -labsl_$l"
done
/usr/lib/llvm-18/bin/clang++ "$W"/s*.o -o "$W/demo" -Wl,-rpath,$LIBDIR/android -lprotobuf $LIBDIR/android/libcrypto.so -lfarmhash -lhwy -lpthread $A || { cat "$W"/s*.log | head -50; exit 3; }
timeout 200 "$W/demo"
