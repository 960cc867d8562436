#!/usr/bin/env python3
"""Build libT8 from /repo's working tree plus one harness executable. Usage: vpbuild.py HARNESS [VARIANT]"""
import os, sys, subprocess, re, fcntl, hashlib, json

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
EXCLUDE = re.compile(r"with_vtk|/t8_cad/|geometry_cad|mesh_deformation")

def sources(base, exts):
    out = []
    for d, dirs, files in os.walk(base):
        dirs.sort()
        for f in sorted(files):
            if f.endswith(exts):
                out.append(os.path.join(d, f))
    return out

DEFS = ['T8_ENABLE_DEBUG=1', 'T8_ENABLE_MPI=1', 'T8_ENABLE_MPIIO=1', 'T8_CMAKE_BUILD', 'OMPI_SKIP_MPICXX',
        'MPICH_SKIP_MPICXX'] + [f'T8_{x}=\\"x\\"' for x in ('CC', 'CFLAGS', 'CXX', 'CXXFLAGS', 'LDFLAGS', 'LIBS')] + [
        'T8_PACKAGE_STRING=\\"t8_4.0.0\\"', 'T8_VERSION=\\"4.0.0\\"', 'T8_VERSION_MAJOR=4', 'T8_VERSION_MINOR=0',
        'T8_VERSION_PATCH=0', 'T8_VERSION_POINT=4.0.0', 'T8_TEST_LEVEL_INT=0']

def build(harness, variant="dbg", quiet=True):
    bdir = os.path.join(ROOT, ".build", variant)
    os.makedirs(bdir, exist_ok=True)
    lock = open(os.path.join(bdir, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    opt = "-O1"
    extra = ""
    link = ""
    defs = list(DEFS)
    if variant == "asan":
        opt = "-O1 -g1 -fno-omit-frame-pointer"
        extra = " -fsanitize=address,undefined -fno-sanitize=vptr,alignment"
        link = extra
    if variant == "cov":  # development aid: which lines the checks reach
        opt = "-O0"
        extra = link = " --coverage"
    if variant == "rel":
        opt = "-O2"
        defs = [d for d in defs if d != 'T8_ENABLE_DEBUG=1']
    common = (f"{opt}{extra} -w -fpermissive -ffunction-sections -fdata-sections -include {ROOT}/engine/shim.h "
              f"-I{REPO}/src -I{REPO} -I{ROOT}/engine -I{ROOT}/harness -isystem /usr/lib/x86_64-linux-gnu/openmpi/include "
              + " ".join("-D" + d for d in defs))
    ccommon = common.replace("-fpermissive ", "")
    lines = ["ninja_required_version = 1.3", "builddir = .",
             "rule cxx", f"  command = g++ -std=gnu++20 {common} -MMD -MF $out.d -c $in -o $out", "  depfile = $out.d",
             "  deps = gcc", "  description = CXX $in",
             "rule cc", f"  command = gcc -std=gnu11 {ccommon} -MMD -MF $out.d -c $in -o $out", "  depfile = $out.d",
             "  deps = gcc", "  description = CC $in",
             "rule ar", "  command = rm -f $out && ar rcs $out @$out.rsp", "  rspfile = $out.rsp",
             "  rspfile_content = $in", "  description = AR $out",
             "rule link",
             f"  command = g++ -rdynamic {link} -o $out $in -Wl,--gc-sections -lp4est -lsc -L/usr/lib/x86_64-linux-gnu/openmpi/lib -lmpi -lz -lm",
             "  description = LINK $out"]
    objs = []
    for s in sources(REPO + "/src", (".c", ".cxx")):
        if EXCLUDE.search(s):
            continue
        o = "lib/" + os.path.relpath(s, REPO).replace("/", "__") + ".o"
        lines.append(f"build {o}: {'cxx' if s.endswith('.cxx') else 'cc'} {s}")
        objs.append(o)
    lines.append("build libT8.a: ar " + " ".join(objs))
    eng = []
    for s in sources(ROOT + "/engine", (".cxx",)):
        o = "eng/" + os.path.basename(s) + ".o"
        lines.append(f"build {o}: cxx {s}")
        eng.append(o)
    for h in sorted(f[:-4] for f in os.listdir(ROOT + "/harness") if f.endswith(".cxx")):
        lines.append(f"build h/{h}.o: cxx {ROOT}/harness/{h}.cxx")
        lines.append(f"build {h}: link h/{h}.o {' '.join(eng)} libT8.a")
    text = "\n".join(lines) + "\n"
    nf = os.path.join(bdir, "build.ninja")
    if not os.path.exists(nf) or open(nf).read() != text:
        open(nf, "w").write(text)
    # ninja compares time stamps; drop objects whose sources differ in content from what they were built from
    stamp = os.path.join(bdir, "hashes.json")
    now = {}
    for b in (REPO + "/src", REPO + "/mesh_handle", ROOT + "/engine", ROOT + "/harness"):
        for f in sources(b, (".c", ".cxx", ".h", ".hxx", ".txx", ".hpp", ".inc")):
            now[f] = hashlib.sha1(open(f, "rb").read()).hexdigest()
    try:
        old = json.load(open(stamp))
    except (OSError, ValueError):
        old = {}
    changed = [f for f in set(now) | set(old) if now.get(f) != old.get(f)]
    if old and changed and not os.environ.get("VP_MTIME"):
        for f in changed:
            os.utime(f) if f in now and f.startswith(ROOT) else None
        hdr = any(not f.endswith((".c", ".cxx")) and f.startswith(REPO + "/src") for f in changed)
        mh = os.path.join(bdir, "h", "h_mesh.o")
        if any(f.startswith(REPO + "/mesh_handle") for f in changed) and os.path.exists(mh):
            os.remove(mh)
        for sub in ("lib", "eng", "h") if hdr else ("lib",):
            d = os.path.join(bdir, sub)
            for o in os.listdir(d) if os.path.isdir(d) else []:
                if o.endswith(".o") and (hdr or any(o == os.path.relpath(f, REPO).replace("/", "__") + ".o" for f in changed)):
                    os.remove(os.path.join(d, o))
    json.dump(now, open(stamp, "w"))
    targets = [harness] if harness else []
    r = subprocess.run(["ninja", "-C", bdir] + targets, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stderr.write(r.stdout[-6000:])
        sys.stderr.write("\nvpbuild: build failed\n")
        return None
    return os.path.join(bdir, harness) if harness else bdir

if __name__ == "__main__":
    p = build(sys.argv[1] if len(sys.argv) > 1 and sys.argv[1] != "all" else None, *(sys.argv[2:3]))
    if p is None:
        sys.exit(2)
    print(p)
