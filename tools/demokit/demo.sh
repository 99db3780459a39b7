#!/bin/sh
# builds demo.c against the application of the current directory (the repository) and runs it
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
cc -std=gnu11 -g -O1 -U_FORTIFY_SOURCE -w -fno-strict-aliasing $DEMO_FLAGS '-DAPPNAME="Ergo"' -DMAJOR_VERSION=0 -DMINOR_VERSION=0 -DPATCH_VERSION=4 '-DAPPVERSION="0.0.4"' \
   -DHAVE_BAGL -DHAVE_UX_FLOW -DIO_HID_EP_LENGTH=64 -Dexplicit_bzero=model_bzero \
   -I"$here/kit/include" -I"$here/kit" -Isrc "$here"/demo.c "$here"/kit/*.c $(find src -name '*.c') -o "$t/demo" || exit 99
ASAN_OPTIONS=detect_leaks=0 timeout 60 "$t/demo"
