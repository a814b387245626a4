#!/bin/bash
# check.sh PROPERTY quick|thorough [engine flags]
cd /verif || exit 2
p=$1; t=$2; shift 2
if ! bash /verif/build.sh >&2; then
  echo "check: build failed" >&2
  exit 2
fi
. /verif/env.sh
exec /verif/.build/engine check -prop "$p" -tier "$t" -seed "${VERIF_SEED:-1}" -replay /verif/.build/replay "$@"
