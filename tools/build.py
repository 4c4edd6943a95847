"""Builds pillowcore from /repo's working tree plus a conformance driver (never touches /repo).

Objects are cached under /verif/build by a hash of everything that goes into them, so a changed
source or header is always recompiled and an unchanged one never is."""
import hashlib, os, subprocess, sys, glob, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PILLOW_REPO", "/repo")
OUT = os.path.join(VERIF, "build")
QT = "/usr/include/x86_64-linux-gnu/qt5"
HARNESS_DEF = ['-DHARNESS="%s/harness"' % VERIF]
DEFS = "-DPILLOW_ZLIB -DPILLOWCORE_BUILD -DQT_NO_DEBUG -DQT_NETWORK_LIB -DQT_SCRIPT_LIB -DQT_CORE_LIB".split()
INC = ["-I%s/pillowcore" % REPO, "-I" + QT] + ["-I%s/%s" % (QT, m) for m in ("QtNetwork", "QtScript", "QtCore")]
SAN = ["-fsanitize=address", "-fno-omit-frame-pointer"]
CXX = ["g++", "-std=c++11", "-pipe", "-O1", "-g1", "-w", "-fPIC", "-D_REENTRANT"] + DEFS
CC = ["gcc", "-pipe", "-O1", "-g1", "-w", "-fPIC", "-D_REENTRANT"] + DEFS
LIBS = ["-lz", "-lQt5Network", "-lQt5Script", "-lQt5Core", "-lpthread"]


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def read(f):
    with open(f, "rb") as fh:
        return fh.read()


class BuildError(Exception):
    pass


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if r.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout.decode(errors="replace")[-4000:]))
    return r.stdout


def headers_hash():
    hs = sorted(glob.glob(REPO + "/pillowcore/**/*.h", recursive=True))
    return sha(*[x for f in hs for x in (f, read(f))])


def objects(san=True):
    """Compile every source of the library; returns the object files."""
    os.makedirs(OUT, exist_ok=True)
    hh = headers_hash()
    extra = SAN if san else []
    base = REPO + "/pillowcore"
    pch = OUT + "/pch-%s" % sha(hh, CXX, extra)
    if not os.path.exists(pch + "/pch.h.gch"):
        os.makedirs(pch, exist_ok=True)
        with open(pch + "/pch.h", "w") as f:
            f.write('#include "%s/pch.h"\n' % base)
        run(CXX + extra + INC + ["-x", "c++-header", pch + "/pch.h", "-o", pch + "/pch.h.gch.tmp%d" % os.getpid()])
        os.rename(pch + "/pch.h.gch.tmp%d" % os.getpid(), pch + "/pch.h.gch")
    inc_pch = ["-include", pch + "/pch.h"]
    jobs = []
    for src in sorted(glob.glob(base + "/*.cpp")):
        jobs.append(("cpp", src))
    for src in ("parser/parser.c", "parser/http_parser.c"):
        jobs.append(("c", base + "/" + src))
    for h in sorted(glob.glob(base + "/*.h")):
        if b"Q_OBJECT" in read(h):
            jobs.append(("moc", h))

    def one(job):
        kind, src = job
        key = sha(kind, src, read(src), hh, CXX, CC, extra)
        obj = OUT + "/%s-%s.o" % (os.path.basename(src).replace(".", "_"), key)
        if os.path.exists(obj):
            return obj
        tmp = obj + ".tmp%d.o" % os.getpid()
        if kind == "c":
            run(CC + extra + INC + ["-c", src, "-o", tmp])
        else:
            mocdir = OUT + "/moc-" + key
            os.makedirs(mocdir, exist_ok=True)
            if kind == "moc":
                m = mocdir + "/moc_" + os.path.basename(src)[:-2] + ".cpp"
                run(["moc"] + DEFS + INC + [src, "-o", m])
                run(CXX + extra + INC + inc_pch + ["-c", m, "-o", tmp])
            else:
                if ('"%s.moc"' % os.path.basename(src)[:-4]).encode() in read(src):
                    run(["moc"] + DEFS + INC + [src, "-o", mocdir + "/" + os.path.basename(src)[:-4] + ".moc"])
                run(CXX + extra + INC + ["-I" + mocdir] + inc_pch + ["-c", src, "-o", tmp])
        os.rename(tmp, obj)
        return obj

    with ThreadPoolExecutor(10) as ex:
        return list(ex.map(one, jobs))


def driver(name, san=True):
    """Build /verif/harness/<name>.cpp against the library; returns the executable."""
    os.makedirs(OUT, exist_ok=True)
    with open(OUT + "/.lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        src = VERIF + "/harness/%s.cpp" % name
        extra = SAN if san else []
        with ThreadPoolExecutor(2) as ex:
            key = sha(headers_hash(), read(src), *[read(f) for f in sorted(glob.glob(VERIF + "/harness/*.h"))], CXX, extra)
            obj = OUT + "/drv-%s-%s.o" % (name, key)

            def comp():
                if os.path.exists(obj):
                    return
                mocdir = OUT + "/moc-drv-" + key
                os.makedirs(mocdir, exist_ok=True)
                flags = CXX + HARNESS_DEF + extra + ["-I" + mocdir, "-I" + VERIF + "/harness"] + INC
                if ('"%s.moc"' % name).encode() in read(src):
                    run(["moc"] + DEFS + INC + ["-I" + VERIF + "/harness", src, "-o", mocdir + "/%s.moc" % name])
                tmp = obj + ".tmp%d.o" % os.getpid()
                run(flags + ["-c", src, "-o", tmp])
                os.rename(tmp, obj)
            f1 = ex.submit(comp)
            f2 = ex.submit(objects, san)
            f1.result()
            objs = f2.result()
        exe = OUT + "/%s-%s" % (name, sha(obj, *sorted(objs)))
        if not os.path.exists(exe):
            tmp = exe + ".tmp%d" % os.getpid()
            run(["g++"] + extra + [obj] + objs + ["-o", tmp] + LIBS)
            os.rename(tmp, exe)
        return exe


TLAJAR = "/opt/veriftools/tla/tla2tools.jar"
TLADEPS = "/opt/veriftools/tla/CommunityModules-deps.jar"


def overrides():
    """Compile the fast evaluation of spec/Bytes.tla for TLC; returns the class path entry."""
    os.makedirs(OUT, exist_ok=True)
    src = sorted(glob.glob(VERIF + "/tools/java/*.java"))
    d = OUT + "/java-" + sha(*[read(f) for f in src])
    with open(OUT + "/.lockj", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(d):
            run(["javac", "-nowarn", "-cp", TLAJAR, "-d", d + ".tmp"] + src)
            os.rename(d + ".tmp", d)
    return d


if __name__ == "__main__":
    overrides()
    for n in sys.argv[1:]:
        print(driver(n))
