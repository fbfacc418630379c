#!/bin/bash
# cwd: the repository; exit 0 if the property holds for this demonstration
D=$(cd "$(dirname "$0")" && pwd) || exit 2
R=$PWD
T=$(mktemp -d /tmp/nldemo.XXXXXX) || exit 2
trap 'rm -rf "$T"' EXIT
SRV=""
[ -f "$D/ua_server.cpp" ] && SRV="yes"
export ASAN_OPTIONS=detect_leaks=1:allocator_may_return_null=1
FL="-g -O1 -w -D_GNU_SOURCE -DUSE_CLEANUP_CUSTOM_DATATYPES=1 -fsanitize=address,undefined -fno-sanitize-recover=undefined -I$D/stub -I$D -I/usr/include/libxml2 -I$R/include -I$R/src -I$R/backends/open62541/include -I$R/backends/open62541/src"
cd "$T" || exit 2
i=0
for c in "$R"/src/*.c "$R"/src/nodes/*.c "$D"/ua_types.c ${SRV:+"$R"/backends/open62541/src/*.c}; do
  i=$((i + 1)); gcc -std=gnu11 $FL -c "$c" -o "o$i.o" || exit 2
done
for c in "$D"/demo.c*  ${SRV:+"$D"/ua_server.cpp}; do
  i=$((i + 1))
  case "$c" in *.cpp) g++ -std=gnu++17 $FL -c "$c" -o "o$i.o" || exit 2;; *) gcc -std=gnu11 $FL -c "$c" -o "o$i.o" || exit 2;; esac
done
g++ -fsanitize=address,undefined $(cat "$D/wrap" 2>/dev/null) -o demo o*.o -lxml2 -lpthread || exit 2
mkdir work && cd work && timeout 120 ../demo
