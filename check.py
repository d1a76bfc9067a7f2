#!/usr/bin/env python3
"""Builds one property's simulation from /repo's working tree and runs the seeded search.

usage: check.py <property> [--tier quick|thorough] [--seconds N] [--replay FILE] [--one IDX]
"""
import os, sys, subprocess, tempfile, shutil, time, json

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
LIBS = "-lTKBO -lTKTopAlgo -lTKBRep -lTKGeomAlgo -lTKPrim -lTKGeomBase -lTKG3d -lTKG2d -lTKMath -lTKernel -ldl".split()
# seconds of search per tier
QUICK = {"P09": 25, "P13": 20, "P14": 20, "P15": 20, "P16": 20, "P17": 15, "P18": 15, "P19": 20, "P20": 25, "P21": 30, "P22": 30, "P23": 20, "P24": 25, "P25": 15}
THOROUGH = {}

def occ_include():
    for d in ("/usr/include/opencascade", "/usr/local/include/opencascade"):
        if os.path.isdir(d): return d
    return "/usr/include/opencascade"

PYMODS = ("common", "precision", "geometry", "occutilities", "entitynetwork", "io", "sampling")
PYTHON = {"P19": ("common", "precision", "geometry", "sampling"), "P20": ("common", "precision", "geometry", "occutilities", "entitynetwork", "io"), "P22": PYMODS, "P23": ("common", "precision", "geometry", "occutilities")}  # modules of the python package a check needs

def pyconfig():
    import sysconfig
    return sysconfig.get_paths()["include"], "-lpython" + sysconfig.get_config_var("LDVERSION")

def build(prop, bdir):
    mods = PYTHON.get(prop, ())
    cxx = ["g++", "-std=c++17", "-O1", "-w", "-DNDEBUG", "-D_GLIBCXX_ASSERTIONS", "-fno-omit-frame-pointer",
           "-I", REPO, "-isystem", occ_include(), "-I", HERE]
    units = [(os.path.join(HERE, "work", prop.lower() + ".cc"), "w.o")] + \
            [(os.path.join(HERE, "sim", s + ".cc"), s + ".o") for s in ("sim", "heap", "disk", "clock")]
    pyflags = ["-I", pyconfig()[0], "-fvisibility=hidden"] if mods else []
    procs = [(u, subprocess.Popen(cxx + (pyflags if o == "w.o" else []) + ["-c", u, "-o", os.path.join(bdir, o)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)) for u, o in units]
    for m in mods:
        src = os.path.join(REPO, "python", "frackit", m); dst = os.path.join(bdir, "py", "frackit", m); os.makedirs(dst)
        for f in os.listdir(src):
            if f.endswith(".py"): shutil.copy(os.path.join(src, f), dst)
        u = os.path.join(src, "_%s.cc" % m)
        procs.append((u, subprocess.Popen(["g++", "-w", "-std=c++17", "-O0", "-DNDEBUG", "-D_GLIBCXX_ASSERTIONS", "-fPIC", "-shared", "-fvisibility=hidden", "-I", REPO, "-isystem", occ_include(), "-I", pyconfig()[0],
                                           u, "-o", os.path.join(dst, "_%s.so" % m)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    ok = True
    for u, p in procs:
        out, _ = p.communicate()
        if p.returncode:
            print("ERROR: cannot compile %s against %s\n%s" % (u, REPO, out[-4000:])); ok = False
    if not ok: return None
    exe = os.path.join(bdir, "sim")
    r = subprocess.run(["g++", "-rdynamic"] + [os.path.join(bdir, o) for _, o in units] + ["-o", exe] + (["-Wl,--no-as-needed"] if mods else []) + LIBS + ([pyconfig()[1]] if mods else []), capture_output=True, text=True)
    if r.returncode:
        print("ERROR: cannot link\n" + r.stderr[-4000:]); return None
    return exe

def main():
    a = sys.argv[1:]
    prop = a.pop(0)
    if prop == "--selfcheck":
        # the checks build everything they need themselves; only the tools have to be there
        for t in ("g++",):
            if not shutil.which(t): print("missing " + t); return 2
        return 0
    tier = os.environ.get("VERIF_TIER", "quick"); extra = []; secs = None
    while a:
        k = a.pop(0)
        if k == "--tier": tier = a.pop(0)
        elif k == "--seconds": secs = float(a.pop(0))
        else: extra += [k] + ([a.pop(0)] if a else [])
    seed = os.environ.get("VERIF_SEED", "1")
    if secs is None:
        secs = QUICK.get(prop, 12) if tier == "quick" else THOROUGH.get(prop, 600)
    bdir = tempfile.mkdtemp(prefix="simbuild-", dir="/tmp")
    try:
        t0 = time.time()
        exe = build(prop, bdir)
        if not exe: return 2
        print("built %s in %.1f s" % (prop, time.time() - t0), flush=True)
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        cmd = [exe, "--property", prop, "--tier", tier, "--seed", seed, "--seconds", str(secs),
               "--workers", str(os.cpu_count() or 4), "--replay-dir", os.path.join(HERE, "replays"),
               "--known", os.path.join(HERE, "known_findings.txt")]
        if not any(x in ("--replay", "--one") for x in extra):
            cmd += ["--out", os.path.join(HERE, "evidence", prop + ".json")]
        env = dict(os.environ, SIM_PYDIR=os.path.join(bdir, "py"))
        return subprocess.run(cmd + extra, env=env).returncode
    finally:
        shutil.rmtree(bdir, ignore_errors=True)

if __name__ == "__main__":
    rc = main()
    sys.exit(rc if rc in (0, 1) else 2)
