#!/bin/bash
# replay.sh <vec> : runs a recorded counterexample against the natively compiled code
D=$(cd "$(dirname "$0")" && pwd)
"$D/build/driver" "$D/build/target/release/libvharness.so" "$1"
