#!/bin/bash
# check.sh PROPERTY [quick|thorough]: builds the analyser and decides one
# property of /repo's current working tree.
cd "$(dirname "$0")" || exit 2
./build.sh >&2 || { echo "the analyser could not be built"; exit 2; }
exec ./bin/ck -verif "$PWD" -p "$1" -tier "${2:-quick}"
