#!/bin/bash
# check.sh PROPERTY [quick|thorough] : decides one property on /repo's current tree.
cd "$(dirname "$0")" || exit 2
root=$PWD
tier=${2:-${VERIF_TIER:-quick}}
. ./env.sh
bash ./build.sh || exit 2
exec ./bin/symgo check -root "$root" -property "$1" -tier "$tier"
