#!/bin/bash
# build.sh VARIANT TARGET: builds a check program from /repo's current working tree into /verif/.build/VARIANT.
# Sources are copied (content-compared, so make's timestamps stay meaningful); /repo itself is never written.
set -e -o pipefail
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin LC_ALL=C.UTF-8
V=${1:-plain}; T=${2:-engine}; R=${VERIF_REPO:-/repo}; B=${VERIF_BUILD:-/verif/.build}; W=$B/$V
mkdir -p $W/src
python3 - "$R/src" "$W/src" <<'P'
import os, sys, filecmp
a, b = sys.argv[1:]
keep = (".cpp", ".h", ".c", ".cc", ".hh", ".hpp", ".ggo")
want = set()
for d, ds, fs in os.walk(a):
    ds[:] = [x for x in ds if x not in ("doc", "autom4te.cache", "build-aux", "m4", "nanotrav", "dofHeuristics")]
    for f in fs:
        if not f.endswith(keep) or (d == a and f in ("cmdline.c", "cmdline.h")): continue
        r = os.path.relpath(os.path.join(d, f), a); want.add(r)
        s, t = os.path.join(a, r), os.path.join(b, r)
        if os.path.exists(t) and filecmp.cmp(s, t, shallow=False): continue
        os.makedirs(os.path.dirname(t), exist_ok=True)
        open(t, "wb").write(open(s, "rb").read())
for d, ds, fs in os.walk(b):
    for f in fs:
        r = os.path.relpath(os.path.join(d, f), b)
        if r not in want and r not in ("cmdline.c", "cmdline.h"): os.remove(os.path.join(d, f))
P
if [ ! -e $W/src/cmdline.c ] || [ $W/src/options.ggo -nt $W/src/cmdline.c ]; then
  (cd $W/src && gengetopt --include-getopt --default-optional --unamed-opts -i options.ggo)
fi
make -s -j"$(nproc)" -C $W -f /verif/Makefile V=$V W=$W $T
