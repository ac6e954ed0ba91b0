#!/usr/bin/env python3
"""Builds the simulator and the notmuch image from /repo's current working tree.

Objects are cached by the hash of (compiler flags, source bytes, all headers), so any change of the
sources is compiled, and nothing else is.  Output: build/libnm.so, build/nmsim.
"""
import hashlib, os, subprocess, sys, glob, concurrent.futures, shlex, fcntl
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get("NM_REPO", "/repo")
BUILD = os.environ.get("NM_BUILD", os.path.join(ROOT, "build"))
os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)

def sh(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        sys.stderr.write(" ".join(cmd) + "\n" + r.stdout)
        raise SystemExit(3)
    return r.stdout

def pc(*a):
    return shlex.split(sh(["pkg-config", *a]))

def rd(p):
    with open(p, "rb") as f:
        return f.read()

def main():
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    inc = pc("--cflags", "gmime-3.0", "talloc", "zlib", "glib-2.0") + ["-I/usr/include/sfsexp"]
    version = rd(REPO + "/version.txt").decode().strip()
    defs = ["-DHAVE_VALGRIND=0", "-DHAVE_SFSEXP=1", "-DHAVE_GETLINE=1", "-DWITH_EMACS=1",
            "-DHAVE_CANONICALIZE_FILE_NAME=1", "-DHAVE_STRCASESTR=1", "-DHAVE_STRSEP=1", "-DHAVE_TIMEGM=1",
            "-DHAVE_D_TYPE=1", "-DSTD_GETPWUID=1", "-DSTD_ASCTIME=1", "-DSILENCE_XAPIAN_DEPRECATION_WARNINGS",
            "-DHAVE_XAPIAN_DB_RETRY_LOCK=1", '-DNOTMUCH_VERSION="%s"' % version]
    common = ["-g", "-O1", "-fPIC", "-w", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0", "-D_GNU_SOURCE",
              "-D_LARGEFILE64_SOURCE", "-fno-stack-protector", "-fno-omit-frame-pointer"]
    nminc = ["-I" + REPO, "-I" + REPO + "/lib", "-I" + REPO + "/compat", "-I" + REPO + "/util",
             "-I" + REPO + "/parse-time-string"]
    nmflags = common + defs + nminc + inc + ["-fno-gnu-unique"]
    srcs = []
    for d in ("", "lib", "util", "parse-time-string"):
        for pat in ("*.c", "*.cc"):
            srcs += sorted(glob.glob(os.path.join(REPO, d, pat)))
    hdrs = []
    for d in ("", "lib", "util", "compat", "parse-time-string"):
        hdrs += sorted(glob.glob(os.path.join(REPO, d, "*.h")))
    hh = hashlib.sha256()
    for h in hdrs:
        hh.update(h.encode() + b"\0" + rd(h))
    # sources are sometimes included by other sources
    nmh = hh.hexdigest()
    sh_ = hashlib.sha256()
    for h in sorted(glob.glob(HERE + "/*.h")):
        sh_.update(rd(h))
    simh = sh_.hexdigest()
    jobs, nmobj, simobj = [], [], []
    def add(src, flags, extra, out):
        cc = "g++" if src.endswith(".cc") else "gcc"
        fl = flags + (["-fno-gnu-unique"] if cc == "g++" and "-fno-gnu-unique" not in flags else [])
        if cc == "gcc":
            fl = [f for f in fl if f != "-fno-gnu-unique" and not f.startswith("-std=c++")]
        key = hashlib.sha256((cc + " ".join(fl) + extra).encode() + rd(src)).hexdigest()[:32]
        obj = os.path.join(BUILD, "obj", key + ".o")
        out.append(obj)
        if not os.path.exists(obj):
            jobs.append((cc, fl, src, obj))
    for s in srcs:
        fl = list(nmflags)
        if os.path.relpath(s, REPO) == "notmuch.c":
            fl.append("-Dmain=notmuch_cli_main")
        add(s, fl, nmh, nmobj)
    add(HERE + "/nmlib.cc", nmflags + ["-I" + HERE], nmh + simh, nmobj)
    simflags = ["-g", "-O2", "-fPIC", "-std=c++17", "-w", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0", "-D_GNU_SOURCE"] + inc
    for s in sorted(glob.glob(HERE + "/*.cc") + glob.glob(HERE + "/*.c")):
        if os.path.basename(s) == "nmlib.cc":
            continue
        add(s, simflags, simh, simobj)
    def cc1(j):
        cc, fl, src, obj = j
        tmp = obj + ".%d.tmp" % os.getpid()
        r = subprocess.run([cc, *fl, "-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode == 0:
            os.rename(tmp, obj)
        return r.returncode, src, r.stdout
    with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        bad = [x for x in ex.map(cc1, jobs) if x[0]]
    for rc, src, out in bad:
        sys.stderr.write("compile error in %s\n%s\n" % (src, out))
    if bad:
        raise SystemExit(3)
    libs = pc("--libs", "gmime-3.0", "talloc", "zlib", "glib-2.0") + ["-lxapian", "-lsexp"]
    def link(out, cmd, key):
        k = hashlib.sha256((" ".join(cmd) + key).encode()).hexdigest()
        stamp = out + ".key"
        if os.path.exists(out) and os.path.exists(stamp) and rd(stamp).decode() == k:
            return
        sh(cmd + ["-o", out + ".tmp"])
        os.rename(out + ".tmp", out)
        with open(stamp, "w") as f:
            f.write(k)
    link(BUILD + "/libnm.so", ["g++", "-shared", "-Wl,-Bsymbolic", "-Wl,-z,norelro", "-Wl,-z,now", *nmobj, *libs], "")
    link(BUILD + "/nmsim", ["g++", "-rdynamic", "-Wl,--no-as-needed", *simobj, *libs, "-luuid", "-ldl", "-lz"], "")
    # drop objects that have not been used for a while
    keep = set(nmobj + simobj)
    old = [o for o in glob.glob(BUILD + "/obj/*.o") if o not in keep]
    old.sort(key=os.path.getmtime)
    for o in old[:-600]:
        os.unlink(o)
    print("built %d objects" % len(jobs))

main()
