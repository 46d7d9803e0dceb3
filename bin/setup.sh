#!/bin/bash
set -e
cd "$(dirname "$0")/.."
for t in cbmc goto-cc goto-instrument gcc clang-18 objcopy; do command -v $t >/dev/null; done
bash symx/build.sh
echo ok
