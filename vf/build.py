"""Builds the whole of fql (and harnesses around parts of it) from /repo's
working tree, with the stand-ins of /verif/standin for what is not installed.

Objects are cached by content (command, source, headers) under /verif/.build,
which git ignores; nothing outside /repo's sources decides a rebuild.
"""
import concurrent.futures as cf
import fcntl
import glob
import hashlib
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
STANDIN = os.path.join(VERIF, "standin")
HARNESS = os.path.join(VERIF, "harness")

SAN = {
    "plain": ["-O1"],
    "asan": ["-O1", "-fno-omit-frame-pointer",
             "-fsanitize=address,undefined",
             "-fno-sanitize=alignment,nonnull-attribute"],
    "tsan": ["-O1", "-fno-omit-frame-pointer", "-fsanitize=thread"],
    "msan": ["-O1", "-fno-omit-frame-pointer", "-fsanitize=memory",
             "-fsanitize-memory-track-origins"],
    "cov": ["-O0", "--coverage"],
}

CINC = ["-D_GNU_SOURCE", "-DHAVE_CONFIG_H",
        "-DSCHEMA_DATADIR=" + REPO + "/lib/schema"]


class BuildError(Exception):
    pass


def _dirs():
    r = REPO
    return [r, r + "/lib", r + "/lib/include", r + "/util", STANDIN]


def _sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(len(p).to_bytes(8, "big"))
        h.update(p)
    return h.hexdigest()[:24]


def _read(p):
    with open(p, "rb") as f:
        return f.read()


def _headers(dirs, exts=(".h", ".hpp")):
    acc = []
    for d in dirs:
        for root, ds, fs in os.walk(d):
            ds[:] = sorted(x for x in ds if not x.startswith((".", "_"))
                           and x not in ("gen", "m4", "build-aux"))
            for f in sorted(fs):
                if f.endswith(exts):
                    acc.append(os.path.join(root, f))
    return acc


_hdr_cache = {}


def _hdr_hash(dirs):
    key = tuple(dirs)
    if key not in _hdr_cache:
        _hdr_cache[key] = _sha(*[x for p in _headers(dirs)
                                 for x in (p, _read(p))])
    return _hdr_cache[key]


def _compile(job):
    cmd, src, out = job
    if os.path.exists(out):
        return None
    tmp = out + ".%d.tmp" % os.getpid()
    r = subprocess.run(cmd + ["-c", src, "-o", tmp], stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT)
    if r.returncode:
        return "%s\n%s" % (" ".join(cmd + [src]),
                           r.stdout.decode("utf-8", "replace")[-4000:])
    os.rename(tmp, out)
    return None


def _config():
    os.makedirs(BUILD + "/cfg", exist_ok=True)
    p = BUILD + "/cfg/config.h"
    text = ('#define PACKAGE_VERSION "0"\n#define PACKAGE_STRING "fql 0"\n'
            '#define PACKAGE "fql"\n#define VERSION "0"\n')
    if not os.path.exists(p) or open(p).read() != text:
        with open(p + ".tmp", "w") as f:
            f.write(text)
        os.rename(p + ".tmp", p)
    return BUILD + "/cfg"


def link(name, variant, csrc, antlr=False, extra=(), libs=(), defs=None,
         cc="gcc", cxx="g++", ldflags=()):
    """Compile `csrc' (a list of (path, flags)) and link to .build/bin/.

    Returns the path of the program."""
    os.makedirs(BUILD + "/o", exist_ok=True)
    os.makedirs(BUILD + "/bin", exist_ok=True)
    cfg = _config()
    san = SAN[variant]
    if variant == "msan":
        cc = "clang"
    inc = CINC + ["-I" + d for d in _dirs()] + ["-I" + cfg, "-I" + HARNESS]
    jobs = []
    objs = []

    def add(cmd, src, hdrs):
        out = "%s/o/%s-%s.o" % (
            BUILD, os.path.basename(src).replace(".", "_"),
            _sha(" ".join(cmd), _read(src), hdrs))
        objs.append(out)
        jobs.append((cmd, src, out))

    hc = _hdr_hash([REPO, STANDIN, HARNESS])
    for src, flags in csrc:
        add([cc, "-g", "-std=gnu11", "-w"] + san + list(flags)
            + list(extra) + inc, src, hc)
    if antlr:
        a = REPO + "/lib/antlr"
        ainc = inc + ["-I" + a, "-I" + a + "/gen",
                      "-I/usr/include/antlr4-runtime",
                      "-include", STANDIN + "/antlr_compat.h"]
        hg = _sha(*[x for p in sorted(glob.glob(a + "/gen/*.h"))
                    for x in (p, _read(p))])
        for src in sorted(glob.glob(a + "/*.cpp")):
            add([cxx, "-g", "-std=c++17", "-w"] + san + ainc, src, hc + hg)
        for src in sorted(glob.glob(a + "/gen/*.cpp")):
            add([cxx, "-g0", "-O0", "-std=c++17", "-w"] + ainc, src,
                _sha(_read(STANDIN + "/antlr_compat.h")) + hg)
    jobs.sort(key=lambda j: -os.path.getsize(j[1]))
    with open(BUILD + "/lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        with cf.ThreadPoolExecutor(8) as ex:
            errs = [e for e in ex.map(_compile, jobs) if e]
        if errs:
            raise BuildError(errs[0])
        lib = list(libs)
        if antlr:
            lib += ["-lantlr4-runtime", "-lpcre2-8", "-lpthread", "-lreadline"]
        out = "%s/bin/%s-%s-%s" % (BUILD, name, variant,
                                   _sha(*objs, *lib, *ldflags))
        if not os.path.exists(out):
            cmd = ([cxx if antlr else cc] + san + objs
                   + ["-o", out + ".tmp"] + list(ldflags) + lib
                   + ["-lm"])
            r = subprocess.run(cmd, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT)
            if r.returncode:
                raise BuildError(r.stdout.decode("utf-8", "replace")[-4000:])
            os.rename(out + ".tmp", out)
    return out


def _fql_sources():
    r = REPO
    csrc = [(p, []) for p in sorted(glob.glob(r + "/util/*.c"))]
    csrc += [(p, []) for p in sorted(glob.glob(r + "/lib/*.c"))]
    csrc += [(STANDIN + "/csv.c", [])]
    return csrc


# of these, a stress build also delays entry to and exit from functions
SLOWED = ("fifo.c", "process.c", "fqlprocesses.c")


# where harness/interrupt.c can interrupt
WRAPPED = ("fwrite", "fflush", "fclose", "rename", "chmod", "mmap", "munmap")


def zygote(variant, stress=False):
    """The fork server around the complete program."""
    csrc = _fql_sources()
    extra = []
    if stress:
        extra = ["-include", HARNESS + "/stress.h"]
        csrc = [(p, f + extra + (["-finstrument-functions"] if
                                 os.path.basename(p) in SLOWED else []))
                for p, f in csrc]
        csrc += [(HARNESS + "/stress.c", [])]
    csrc += [(REPO + "/src/fql.c", ["-Dmain=fql_main"])]
    csrc += [(HARNESS + "/zygote.c", []), (HARNESS + "/api.c", []),
             (HARNESS + "/interrupt.c", [])]
    return link("zygote" + ("-stress" if stress else ""), variant, csrc,
                antlr=True, ldflags=["-Wl,--wrap=" + n for n in WRAPPED])


def util(name, variant, srcs, extra=(), with_util=True, libs=()):
    """A harness of /verif/harness around the util layer."""
    csrc = [(HARNESS + "/" + s, []) for s in srcs]
    if with_util:
        csrc += [(p, []) for p in sorted(glob.glob(REPO + "/util/*.c"))]
    return link(name, variant, csrc, extra=extra,
                libs=list(libs) + ["-lpthread"])


if __name__ == "__main__":
    for v in sys.argv[1:]:
        print(zygote(v))
