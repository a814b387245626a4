#!/bin/bash
# replay.sh FILE: run a recorded counterexample against the real code.
bash /verif/build.sh >&2 || exit 2
exec /verif/.build/replay "$1"
