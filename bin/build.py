#!/usr/bin/env python3
"""Build a property binary from /repo's current working tree plus /verif's harness.

usage: build.py PID [--variant asan|fuzz] -> prints the path of the binary.
Objects are cached under /verif/.build by a hash of flags, source and headers.
"""
import glob, hashlib, os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")

SKIP = {"src/main.c", "src/admin-cmd.c"}


def sh(*a):
    return subprocess.check_output(a, text=True).split()


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(hashlib.sha256(p).digest())
    return h.hexdigest()[:24]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def main():
    pid = sys.argv[1]
    variant = "asan"
    if "--variant" in sys.argv:
        variant = sys.argv[sys.argv.index("--variant") + 1]
    san = {"asan": ["-fsanitize=address,bounds", "-fno-sanitize-recover=all"],
           "fuzz": ["-fsanitize=address,bounds,fuzzer-no-link", "-fno-sanitize-recover=all", "-DFUZZER"],
           "plain": []}[variant]
    pk = sh("pkg-config", "--cflags", "glib-2.0", "gmodule-2.0")
    opt = ["-O1", "-g", "-fno-omit-frame-pointer"] + san
    inc = ["-I" + VERIF + "/h/conf", "-I" + REPO, "-I" + REPO + "/libirc", "-I" + REPO + "/src",
           "-isystem", "/usr/include/mit-krb5", "-I/usr/include/p11-kit-1"] + pk
    # Paths that the code would otherwise take from the installation prefix
    # point nowhere, so a check never reads or writes system files.
    defs = ["-DHAVE_CONFIG_H", "-DSTRICT_MEMORY_ALLOCS=", "-D_GNU_SOURCE",
            '-DDEFAULT_CONFIG_DIR="/nonexistent/ctrlproxy"', '-DHELPFILE="' + VERIF + '/h/conf/nohelp"',
            '-DMODULESDIR="/nonexistent/mods"', '-DSYSCONFDIR="/nonexistent/etc"',
            '-DDEFAULT_CONFIG_FILE="/nonexistent/ctrlproxyd.conf"', '-DSSL_CREDENTIALS_DIR="/nonexistent/ssl"',
            '-DPIDFILE="/nonexistent/ctrlproxyd.pid"']
    with open(os.path.join(VERIF, "props", pid + ".cc")) as f:
        first = f.read().split("\n", 3)
    want_daemon = any("BUILD: daemon" in l for l in first)
    want_main = any("BUILD: main" in l for l in first)
    srcs = sorted(glob.glob(REPO + "/src/*.c") + glob.glob(REPO + "/libirc/*.c"))
    if want_daemon:
        srcs += sorted(glob.glob(REPO + "/daemon/*.c"))
    srcs = [s for s in srcs if os.path.relpath(s, REPO) not in SKIP or want_main and s == REPO + "/src/main.c"]
    hdrs = sorted(glob.glob(REPO + "/src/*.h") + glob.glob(REPO + "/libirc/*.h") + glob.glob(REPO + "/daemon/*.h")
                  + glob.glob(VERIF + "/h/conf/*.h"))
    hh = digest(*[h + "\0" for h in hdrs], *[read(h) for h in hdrs])
    myh = sorted(glob.glob(VERIF + "/h/*.h"))
    mh = digest(hh, *[read(h) for h in myh])
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    if want_main:                       # what is installed as the default configuration
        d = os.path.join(BUILD, "default")
        os.makedirs(d, exist_ok=True)
        tmp = os.path.join(d, "config.%d" % os.getpid())
        with open(tmp, "wb") as f:
            f.write(read(os.path.join(REPO, "config.default")))
        os.rename(tmp, os.path.join(d, "config"))
    jobs = []
    objs = []
    for s in srcs:
        extra = []
        if os.path.relpath(s, REPO) == "daemon/main.c":
            extra = ["-Dmain=daemon_main", "-Dregister_hup_handler=daemon_register_hup_handler"]
        if os.path.relpath(s, REPO) == "src/main.c":
            extra = ["-Dmain=proxy_main"]
        if want_main and os.path.relpath(s, REPO) == "src/settings.c":
            extra = ["-UDEFAULT_CONFIG_DIR", '-DDEFAULT_CONFIG_DIR="' + BUILD + '/default"']
        cmd = ["clang", "-std=gnu11", "-w"] + opt + defs + extra + inc
        key = digest(" ".join(cmd), s, read(s), hh)
        o = os.path.join(BUILD, "obj", key + ".o")
        objs.append(o)
        if not os.path.exists(o):
            jobs.append((cmd, s, o))
    for s in sorted(glob.glob(VERIF + "/h/*.cc")) + [os.path.join(VERIF, "props", pid + ".cc")]:
        cmd = ["clang++", "-std=gnu++17", "-Wall", "-Wno-unused-function", "-Wno-writable-strings", "-I" + VERIF + "/h"] + opt + defs + inc
        key = digest(" ".join(cmd), s, read(s), mh)
        o = os.path.join(BUILD, "obj", key + ".o")
        objs.append(o)
        if not os.path.exists(o):
            jobs.append((cmd, s, o))

    def comp(j):
        cmd, s, o = j
        tmp = "%s.%d" % (o, os.getpid())
        r = subprocess.run(cmd + ["-c", s, "-o", tmp], capture_output=True, text=True)
        if r.returncode == 0:
            os.rename(tmp, o)
        return r, s

    with ThreadPoolExecutor(8) as ex:
        for r, s in ex.map(comp, jobs):
            if r.stderr and (r.returncode or s.startswith(VERIF)):
                sys.stderr.write(r.stderr)
            if r.returncode:
                sys.stderr.write("build of %s failed\n" % s)
                sys.exit(2)
    outb = os.path.join(BUILD, "%s-%s-%s" % (pid, variant, digest(*objs, *sys.argv[1:])))
    if not os.path.exists(outb):
        link = ["clang++"] + opt + (["-fsanitize=fuzzer"] if variant == "fuzz" else []) + objs + \
            ["-Wl,--wrap=" + w for w in WRAPS] + \
            ["-lgcrypt"] + sh("pkg-config", "--libs", "gmodule-2.0", "glib-2.0", "gnutls") + \
            ["-L/usr/lib/x86_64-linux-gnu/mit-krb5", "-lgssapi_krb5", "-pthread", "-o", outb + ".tmp"]
        r = subprocess.run(link, capture_output=True, text=True)
        if r.returncode:
            sys.stderr.write(r.stderr)
            sys.exit(2)
        os.rename(outb + ".tmp", outb)
    print(outb)


WRAPS = ["time", "g_timeout_add", "g_timeout_add_full", "g_timeout_add_seconds", "g_timeout_add_seconds_full", "g_source_remove"]
main()
