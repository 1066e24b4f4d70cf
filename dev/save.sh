#!/bin/bash
# dev/save.sh ID PROPERTY "needs" "what it breaks" < demo : saves the current diff of /repo as a planted bug and undoes it
# the demo on stdin is a Python program using helper names v (Voikko instance), libvoikko, new() ; it must raise/exit nonzero on failure
d=/verif/seeded/$1; mkdir -p $d; cd /repo || exit 2
git diff > $d/patch.diff; [ -s $d/patch.diff ] || { echo "no diff"; exit 2; }
git checkout -q -- .
if [ "$5" = sh ]; then cat > $d/demo.sh; else
cat > $d/demo.sh <<'E'
#!/bin/bash
# run with cwd /repo after the build
R=$(pwd)
export LC_ALL=C.UTF-8 PYTHONDONTWRITEBYTECODE=1 LD_LIBRARY_PATH=$R/_build/libvoikko/src/.libs PYTHONPATH=$R/libvoikko/python
exec timeout 120 python3 "$(dirname "$0")/demo.py" "$R"
E
{ cat <<'E'
import sys
import libvoikko
from libvoikko import Voikko
R = sys.argv[1]
libvoikko.Voikko.setLibrarySearchPath(R + "/_build/libvoikko/src/.libs")
DICT = R + "/_build/inst-debian/standard"
def new():
    return Voikko("fi", DICT)
def expect(got, want, what):
    if got != want:
        print("FAIL %s: got %r, expected %r" % (what, got, want))
        sys.exit(1)
E
cat; } > $d/demo.py; fi
python3 -c "
import json,sys
print(json.dumps(dict(property=sys.argv[1],needs=sys.argv[2],what_it_breaks=sys.argv[3]),ensure_ascii=False,indent=1))" "$2" "$3" "$4" > $d/meta.json
