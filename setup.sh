#!/bin/bash
# nothing is kept between runs: checks build what they need; this only shows that the tools are there
set -e
cd "$(dirname "$0")"
command -v clang java python3 >/dev/null
t=$(mktemp -d); harness/build.sh "$t" asan; rm -r "$t"
