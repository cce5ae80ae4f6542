#!/usr/bin/env python3
"""Builds the harnesses from /repo's working tree and runs a check.

  run.py setup                      build everything
  run.py <ID> [quick|thorough]      decide one property
  run.py replay <ID> <file>         re-run a reported violation with its trace
"""
import sys, os, subprocess, glob, hashlib, shutil, time, re
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = REPO + "/src"
B = os.environ.get("VERIF_BUILD", HERE + "/.build")
MC = HERE + "/mc"
SAN = ["-fsanitize=address", "-fsanitize=bounds", "-fno-sanitize-recover=all", "-fstrict-flex-arrays=2"]
CF = ["-O1", "-g", "-fno-omit-frame-pointer", "-fno-strict-aliasing", "-w", "-DVERIF_MC"]
LIBS = ["-lssl", "-lcrypto", "-lpthread", "-lm", "-ldl", "-lutil"]

# binary -> (harness sources, kind of the repo objects)
#   sim : every system call, allocation and TLS call of the program goes to the simulated world
#   thr : as sim, but every memory access is a hook of the harness instead of being checked by the address sanitizer
#   raw : the program's own allocator and libc, address sanitizer only
BINS = {
    "net":    (["sim.cpp", "scn_common.cpp", "scn_relay.cpp", "scn_socks.cpp", "scn_http.cpp", "scn_misc.cpp"], "sim"),
    "proc":   (["sim.cpp", "scn_common.cpp", "scn_proc.cpp"], "sim"),
    **{"mod_" + m: (["sim.cpp", "scn_common.cpp", "mod_" + m + ".c"], "sim") for m in ("timer", "event", "ring", "mem", "cont", "log", "cipher", "ac", "json", "config", "chain")},
    "thr":    (["sim.cpp", "scn_common.cpp", "mod_thr.cpp"], "thr"),
}
PROPS = {}
exec(open(HERE + "/props_map.py").read())

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    if r.returncode:
        raise SystemExit2(" ".join(cmd) + "\n" + r.stdout)
    return r.stdout

class SystemExit2(Exception):
    pass

def repo_sources():
    out = []
    for root, dirs, files in os.walk(SRC):
        dirs.sort()
        if os.path.relpath(root, SRC).split("/")[0] == "test":
            continue
        out += [os.path.join(root, f) for f in sorted(files) if f.endswith(".c")]
    return out

def incs():
    d = []
    for x in [".", "common/util", "common", "dns", "http", "app", "bin", "test"]:
        d.append("-I" + os.path.join(SRC, x))
    for root, dirs, files in os.walk(SRC):
        if any(f.endswith(".h") for f in files) and "-I" + root not in d:
            d.append("-I" + root)
    return d

def tree_key():
    h = hashlib.sha256()
    for root, dirs, files in os.walk(SRC):
        dirs.sort()
        for f in sorted(files):
            if f.endswith((".c", ".h")):
                p = os.path.join(root, f)
                h.update(os.path.relpath(p, SRC).encode()); h.update(open(p, "rb").read())
    return h.hexdigest()[:16]

def mc_key():
    h = hashlib.sha256()
    for p in sorted(glob.glob(MC + "/*")) + [__file__]:
        h.update(open(p, "rb").read())
    return h.hexdigest()[:16]

def nm_undef(o):
    return {l.split()[-1].split("@")[0] for l in sh(["nm", "-u", o]).splitlines() if l.strip()}

def nm_def_vf(o):
    return {l.split()[-1][3:] for l in sh(["nm", "--defined-only", o]).splitlines() if re.search(r" [TW] vf_", l)}

def section_flags(o):
    return ["--set-section-flags", ".bss=alloc,load,contents,data", "--rename-section", ".data=vfdata",
            "--rename-section", ".data.rel.local=vfdata", "--rename-section", ".data.rel=vfdata",
            "--rename-section", ".bss=vfbss"]

# calls that would leave the simulated world and have no stand-in: reaching one is an error of the check (exit 2), not a verdict
NOSTANDIN = re.compile(r"(SSL|TLS|DTLS|BIO)_\w+|p?poll|__p?poll_chk|p?select|pipe2?|socketpair|eventfd|timerfd_\w+|signalfd|inotify_\w+|io_\w+|dup3?|splice|tee|recvmmsg|"
    r"sendmmsg|openat2|opendir|scandir|mkdir|mkdirat|rmdir|rename|renameat|link|symlink|readlink|chmod|fchmod|chown|truncate|f?truncate64|ftruncate|exec[vl]p?e?|posix_spawnp?|vfork|"
    r"system|popen|pthread_create|raise|killpg|sigwait|sigwaitinfo|sigtimedwait|pause|setitimer|timer_(create|settime|gettime|delete)|waitid|wait3|wait4|epoll_pwait2|mremap|shm_open|shmget|shmat|sem_\w+|"
    r"freopen|tmpfile|mkstemp|chdir|chroot|mount|daemon|syscall|reboot|sethostname")
unsup = set()

def build_unsup(odir):
    c = os.path.join(odir, "unsup.c")
    with open(c, "w") as f:
        f.write('#include <stdio.h>\n#include <unistd.h>\n' + "".join('void vf_%s(void) { fprintf(stderr, "the program calls %s, for which there is no stand-in\\n"); _exit(99); }\n' % (s, s) for s in sorted(unsup)))
    sh(["gcc", "-c", "-O1", "-w", "-o", c[:-2] + ".o", c])
    return c[:-2] + ".o"

def build_repo_obj(src, odir, kind):
    o = os.path.join(odir, os.path.relpath(src, SRC).replace("/", "_")[:-2] + ".o")
    sh(["gcc", "-c", *CF, *(["-fsanitize=thread", "-fno-builtin-memcpy", "-fno-builtin-memset"] if kind == "thr" else SAN), "-Dmain=s5_main", *incs(), "-o", o, src])
    return o

def redirect(o, kind, vf, own):
    args = ["objcopy"]
    if kind in ("sim", "thr"):
        und = nm_undef(o)
        m = [s for s in sorted(vf) if s in und]
        if kind == "sim":
            more = sorted(s for s in und - set(vf) - own if NOSTANDIN.fullmatch(s))
            m += more; unsup.update(more)
        args += sum((["--redefine-sym", f"{s}=vf_{s}"] for s in m), [])
    args += section_flags(o)
    sh(args + [o])
    return o

def build_mc_obj(src, odir, extra):
    s = src if os.path.isabs(src) else os.path.join(MC, src)
    o = os.path.join(odir, "mc_" + os.path.basename(s).replace(".", "_") + ".o")
    if s.endswith(".cpp"):
        sh(["g++", "-std=gnu++17", "-c", "-O1", "-g", "-w", "-fsanitize=address", "-I" + MC, *extra, "-o", o, s])
    else:
        sh(["gcc", "-c", *CF, *SAN, "-I" + MC, *incs(), *extra, "-o", o, s])
    return o

def build(names):
    """returns {name: path}; objects are kept per content key"""
    key = tree_key() + mc_key()
    os.makedirs(B, exist_ok=True)
    out = {n: os.path.join(B, n + "-" + key) for n in names}
    todo = [n for n in names if not os.path.exists(out[n])]
    if not todo:
        return out
    work = os.path.join(B, "obj-%d" % os.getpid())
    os.makedirs(work + "/sim"); os.makedirs(work + "/thr"); os.makedirs(work + "/raw"); os.makedirs(work + "/mc")
    try:
        kinds = {BINS[n][1] for n in todo}
        srcs = sorted({s for n in todo for s in BINS[n][0]} | {"explore.cpp"} | ({"sim.cpp"} if kinds & {"sim", "thr"} else set()))
        with ThreadPoolExecutor(8) as ex:
            mcobj = dict(zip(srcs, ex.map(lambda s: build_mc_obj(s, work + "/mc", []), srcs)))
            robj = {}
            for k in kinds:
                vf = set() if k == "raw" else nm_def_vf(mcobj["sim.cpp"]) | (nm_def_vf(mcobj["mod_thr.cpp"]) if k == "thr" else set())
                robj[k] = list(ex.map(lambda s: build_repo_obj(s, work + "/" + k, k), repo_sources()))
                own = {l.split()[-1] for l in sh(["nm", "--defined-only", *robj[k]]).splitlines() if len(l.split()) == 3}
                list(ex.map(lambda o: redirect(o, k, vf, own), robj[k]))
            extra = [build_unsup(work + "/mc")] if unsup else []
            def link(n):
                t = out[n] + ".tmp%d" % os.getpid()
                sh(["g++", "-fsanitize=address", "-fsanitize=bounds", "-o", t, mcobj["explore.cpp"], *[mcobj[s] for s in BINS[n][0]], *robj[BINS[n][1]], *(extra if BINS[n][1] == "sim" else []), *LIBS])
                os.rename(t, out[n])
            list(ex.map(link, todo))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    # drop binaries of older trees
    for f in glob.glob(B + "/*-*"):
        if not f.endswith(key) and os.path.isfile(f) and time.time() - os.path.getmtime(f) > 600:
            try: os.unlink(f)
            except OSError: pass
    return out

def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__); return 2
    try:
        if a[0] == "setup":
            build(sorted(BINS)); return 0
        if a[0] == "replay":
            b = build([PROPS[a[1]][0]])
            scratch = B + "/scratch-%d" % os.getpid(); os.makedirs(scratch)
            try: return subprocess.run([b[PROPS[a[1]][0]], "--replay", a[2], scratch], cwd=HERE).returncode
            finally: shutil.rmtree(scratch, ignore_errors=True)
        pid = a[0]; tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
        bin_, lim = PROPS[pid][0], PROPS[pid][1]
        t0 = time.time()
        b = build([bin_])
    except SystemExit2 as e:
        print("ERROR: cannot build the check\n" + str(e)[-6000:]); return 2
    sys.stderr.write("[%s] built in %.1fs\n" % (pid, time.time() - t0))
    os.makedirs(HERE + "/evidence", exist_ok=True)
    ev = HERE + "/evidence/%s.json" % pid
    for f in (ev, ev + ".replay"):
        if os.path.exists(f): os.unlink(f)
    scratch = B + "/scratch-%s-%d" % (pid, os.getpid()); os.makedirs(scratch)
    try:
        return subprocess.run([b[bin_], pid, tier, ev, scratch, str(lim if tier == "quick" else 800)], cwd=HERE).returncode
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

if __name__ == "__main__":
    sys.exit(main())
