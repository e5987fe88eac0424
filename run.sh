#!/bin/bash
# run.sh ID quick|thorough          run one check against /repo's working tree
# run.sh ID replay FILE             run one recorded violation again
# run.sh setup                      build everything
cd "$(dirname "$0")" || exit 2
export VERIF_ROOT=$PWD REPO=${REPO:-/repo}
ID=$1; TIER=${2:-quick}
sum=$(cd "$REPO" && find MQTTSNPacket/src MQTTSNGateway/src MQTTSNGateway/GatewayTester/src -type f \( -name '*.c' -o -name '*.cpp' -o -name '*.h' -o -name '*.in' \) -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -c1-12)
export BUILD=$PWD/build/$sum
mkdir -p "$BUILD" build/replay evidence
# older builds of other trees are dropped
ls -1dt build/*/ 2>/dev/null | grep -v -e "$sum" -e replay | tail -n +6 | xargs -r rm -rf
touch "$BUILD"
build() { flock build/.lock make -s -j8 -f lib/build.mk "$@" >"$BUILD/make.log" 2>&1 || { echo "build failed:"; grep -E 'error|Error|undefined' "$BUILD/make.log" | head -20; exit 2; }; }
case $ID in
setup) build all; exit 0;;
C0[1-4]) BIN=codec;;
D*) BIN=unit;;
T01|T04) BIN=unitd;;
T02|T03) BIN=gwd;;
G1[23]) BIN=gw;;
X01) BIN=net_xbee;;
X02) BIN=net_loralink;;
X03) BIN=net_udp;;
X04) BIN=net_udp6;;
X05) BIN=net_rfcomm;;
G*|T*) BIN=gwf;;
*) echo "unknown property $ID"; exit 2;;
esac
build "$BUILD/$BIN"
export ASAN_OPTIONS=detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=0:quarantine_size_mb=8
exec "$BUILD/$BIN" "$ID" "$TIER" "${@:3}"
