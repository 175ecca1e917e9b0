#!/bin/bash
# debugging aid: build one harness as the checks do.  usage: hbuild.sh C01 out src...
R=${VERIF_REPO:-/repo}; p=$1; o=$2; shift 2
g++ -std=gnu++17 -O1 -g -DNDEBUG -w -fno-access-control -pthread -I$R/include -I$R/src -I$R/tools -I$R/tests -DLOGGER_H=$R/src/logger.h -DTESTSUITE_NO_COLOR=1 -I/verif/stub $HFLAGS -fsanitize=address,undefined -fno-sanitize-recover=undefined -fno-sanitize=alignment,vptr,signed-integer-overflow,shift,nonnull-attribute,returns-nonnull-attribute /verif/harness/$p.cc $(for s in "$@"; do echo $R/$s; done) -o $o -ldl
