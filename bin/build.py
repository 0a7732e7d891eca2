#!/usr/bin/env python3
"""Builds the simulator around /repo's current mdbx.c. Prints the path of the binary.
The library is compiled from the working tree with its default options; only its system
interface is redirected (objcopy --redefine-sym), so no source change is needed."""
import fcntl, hashlib, os, shutil, subprocess, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
OUT = os.environ.get("SIM_BUILD", os.path.join(VERIF, "build"))
SIMSRC = ["sim.cc", "harness.cc", "ops.cc", "ext.cc", "profiles.cc", "main.cc"]
KEEP = set("""bcmp memcmp memchr memcpy memmove memset strcmp strncmp strlen strstr strcasestr strcasecmp strncasecmp strchr
strrchr snprintf vsnprintf strerror strerror_r sigaddset sigemptyset sigfillset sigdelset __ctype_b_loc __errno_location
__isoc23_strtol __isoc23_strtoul __isoc23_strtoull strtol strtoul strtoull __cpu_model __cpu_indicator_init stderr
__ctype_tolower_loc __ctype_toupper_loc memmem memrchr strnlen strcpy strncpy stpcpy qsort bsearch __emutls_get_address
ffs ffsl ffsll rawmemchr strspn strcspn strpbrk strdupa __popcountdi2""".split())
CFLAGS = """-O1 -g1 -DNDEBUG=1 -std=gnu2x -fsanitize=thread -mllvm -tsan-instrument-func-entry-exit=0
 -mllvm -tsan-distinguish-volatile=1 -femulated-tls -fno-pic -fno-pie -fno-stack-protector -U_FORTIFY_SOURCE
 -D_FORTIFY_SOURCE=0 -DMDBX_BUILD_SHARED_LIBRARY=0 -fno-omit-frame-pointer -w""".split()
CXXFLAGS = "-std=c++20 -O2 -g1 -fno-pie -U_FORTIFY_SOURCE -Wall -Wno-unused-function".split()

if os.environ.get("SIM_G"):  # development aid: a build for the debugger
    CFLAGS += ["-g"]
    CXXFLAGS += ["-g"]
    OUT += "-g"

if os.environ.get("SIM_CHECKING"):  # development aid: with internal assertions of the library
    CFLAGS += ["-DMDBX_CHECKING=" + os.environ["SIM_CHECKING"]]
    OUT += "-a" + os.environ["SIM_CHECKING"]

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        sys.stderr.write("build: command failed: %s\n%s\n" % (" ".join(cmd), r.stdout[-6000:]))
        sys.exit(2)
    return r.stdout

def digest(files, extra=""):
    h = hashlib.sha256(extra.encode())
    for f in files:
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fd:
            h.update(fd.read())
    return h.hexdigest()[:20]

def main():
    os.makedirs(OUT, exist_ok=True)
    lock = open(os.path.join(OUT, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    me = os.path.abspath(__file__)
    libsrc = sorted(os.path.join(REPO, f) for f in os.listdir(REPO)
                    if f.endswith((".h", ".c")) and os.path.isfile(os.path.join(REPO, f)))
    simsrc = [os.path.join(VERIF, "sim", f) for f in sorted(os.listdir(os.path.join(VERIF, "sim"))) if f.endswith((".h", ".cc"))]
    lib = "lib-" + digest(libsrc, " ".join(CFLAGS) + digest([me, os.path.join(VERIF, "sim", "sim.cc")]))
    exe = os.path.join(OUT, "sim-" + digest(libsrc + simsrc, digest([me])))
    libo = os.path.join(OUT, lib + ".o")
    if not os.path.exists(exe):
        tmp = os.path.join(OUT, "tmp.%d" % os.getpid())
        os.makedirs(tmp)
        try:
            procs = []
            for s in SIMSRC:
                h = os.path.join(OUT, "h-%s.o" % digest([x for x in simsrc if x.endswith(".h") or x.endswith("/" + s)]
                                 + [os.path.join(REPO, "mdbx.h")], " ".join(CXXFLAGS)))
                c = ["clang++"] + CXXFLAGS + ["-I" + REPO, "-c", os.path.join(VERIF, "sim", s), "-o", h + ".tmp"]
                procs.append((h, None if os.path.exists(h) else
                              subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True), h + ".tmp"))
            raw = os.path.join(tmp, "raw.o")
            if not os.path.exists(libo):
                sh(["clang"] + CFLAGS + ["-I" + REPO, "-c", os.path.join(REPO, "mdbx.c"), "-o", raw])
            objs = []
            for h, p, t in procs:
                if p:
                    o, _ = p.communicate()
                    if p.returncode:
                        sys.stderr.write("build: compiler failed\n" + o[-6000:] + "\n")
                        sys.exit(2)
                    if o.strip() and os.environ.get("V"):
                        sys.stderr.write(o)
                    os.rename(t, h)
                objs.append(h)
            if not os.path.exists(libo):
                have = {l.split()[-1] for l in sh(["nm", "--defined-only"] + objs).splitlines() if " sim_" in l}
                und = [l.split()[-1] for l in sh(["nm", "-u", raw]).splitlines()]
                args = []
                for u in und:
                    if u in KEEP or u.startswith("__tsan"):
                        continue
                    if "sim_" + u in have:
                        args += ["--redefine-sym", u + "=sim_" + u]
                    else:
                        sys.stderr.write("build: note: %s is not simulated\n" % u)
                secs = []
                for l in sh(["objdump", "-h", "-w", raw]).splitlines():
                    f = l.split()
                    if len(f) > 2 and f[0].isdigit():
                        secs.append(f[1])
                ren = []
                for s in secs:
                    for pre, to in ((".data.rel.ro", None), (".data", "mdbxdata"), (".bss", "mdbxbss"),
                                    (".init_array", "mdbxctors"), (".fini_array", "mdbxdtors")):
                        if s == pre or s.startswith(pre + "."):
                            if to:
                                ren += ["--rename-section", s + "=" + to]
                            break
                sh(["objcopy"] + args + ren + [raw, libo + ".tmp"])
                os.rename(libo + ".tmp", libo)
            sh(["clang++", "-no-pie", "-static", "-o", exe + ".tmp"] + objs + [libo])
            os.rename(exe + ".tmp", exe)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    print(exe)

main()
