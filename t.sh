#!/bin/bash
# developer helper: [FL=flavor] [VERIF_REPO=dir VERIF_BUILD=dir] t.sh check args...
cd /verif; B=${VERIF_BUILD:-/verif/build}; export VERIF_DICT=$B/dicts/standard VERIF_DICTS=$B/dicts VERIF_DATA=/verif/data VERIF_BUILD_DIR=$B LC_ALL=C.UTF-8
export ASAN_OPTIONS=detect_leaks=0:exitcode=77:allocator_may_return_null=1:handle_abort=1 UBSAN_OPTIONS=print_stacktrace=1
c=$1; shift
python3 -c "import vbuild,sys; vbuild.dicts(); vbuild.build('${FL:-asan}',checks=['$c'])" || exit 2
[ -n "$TOOLS" ] && { python3 -c "import vbuild; vbuild.build('asan',tools=vbuild.TOOLS[:3]); vbuild.build('tsan',tools=['voikkospell'])" || exit 2; }
mkdir -p /tmp/rep; exec $B/${FL:-asan}/$c --replay-dir /tmp/rep --property $c "$@"
