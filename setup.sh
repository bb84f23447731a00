#!/bin/bash
# builds every instrumented flavour the checks use (they rebuild incrementally on their own)
cd "$(dirname "$0")"
for fl in asan tsan; do bash build.sh $fl || exit 1; done
