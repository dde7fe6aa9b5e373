#!/bin/bash
# builds the executor into /verif/bin (not committed); go's own cache makes a repeated build cheap
cd "$(dirname "$0")" || exit 2
. ./env.sh
mkdir -p bin
(cd engine && go build -o ../bin/symgo .) || exit 2
