#!/usr/bin/env python3
"""check.py PROPERTY quick|thorough  -  build the harness of PROPERTY from /repo's working tree and run it."""
import os, re, subprocess, sys

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
import vpbuild


def harness_of(prop):
    hdir = os.path.join(ROOT, "harness")
    for f in sorted(os.listdir(hdir)):
        if f.endswith(".cxx") and re.search(r'Register[^;]*?\(\{\s*"%s"' % prop, open(os.path.join(hdir, f)).read()):
            return f[:-4]
    sys.exit("no harness for property " + prop)


def main():
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    exe = vpbuild.build(harness_of(prop), os.environ.get("VP_VARIANT", "dbg"))
    if exe is None:
        sys.exit(2)
    cmd = [exe, "--prop", prop, "--tier", tier, "--root", ROOT] + sys.argv[3:]
    sys.exit(subprocess.run(cmd).returncode)


main()
