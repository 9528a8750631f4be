"""Builds libcork (from the current tree of /repo) and the harnesses.

Objects are cached by the content of everything that goes into them, so every
check sees the current tree and an unchanged tree costs nothing twice."""
import fcntl, glob, hashlib, os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
JOBS = min(16, (os.cpu_count() or 4))

COMMON = ["-std=gnu99", "-g", "-w", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0",
          "-DCORK_API=CORK_LOCAL", "-pthread", "-fno-omit-frame-pointer"]
FALLBACK = ["-DCORK_CONFIG_HAVE_GCC_INT128=0", "-DCORK_CONFIG_HAVE_GCC_MODE_ATTRIBUTE=0"]
# memcpy(p, NULL, 0) and NULL + 0 are harmless on every platform libcork
# supports and are not what the properties are about.
ASAN = ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
        "-fno-sanitize=nonnull-attribute,pointer-overflow"]
VARIANTS = {
    "asan":   ("gcc", COMMON + ASAN),
    "fbasan": ("gcc", COMMON + ASAN + FALLBACK),
    "msan":   ("clang", COMMON + ["-O1", "-fsanitize=memory", "-fsanitize-memory-track-origins=1",
                                  "-fno-sanitize-recover=all"]),
    "tsan":   ("clang", COMMON + ["-O1", "-fsanitize=thread", "-mllvm", "-tsan-distinguish-volatile=1"]),
    "plain":  ("gcc", COMMON + ["-O3"]),
    "fb":     ("gcc", COMMON + ["-O3"] + FALLBACK),
    # how the library is built while debugging: nothing is inlined, so inline
    # functions need a definition to link against; one without is noticed when
    # it is called
    "O0":     ("gcc", COMMON + ["-O0", "-fno-inline", "-no-pie", "-fno-pie"]),
    # how it is shipped: without assertions
    "rel":    ("gcc", COMMON + ["-O2", "-DNDEBUG"]),
    # a compiler with fewer extensions: thread-specific data by pthread keys,
    # no assembly, no 128-bit integers
    "port":   ("gcc", COMMON + ["-O2"] + FALLBACK + [
        "-DCORK_CONFIG_HAVE_THREAD_STORAGE_CLASS=0", "-DCORK_CONFIG_HAVE_GCC_ASM=0",
        "-DCORK_CONFIG_HAVE_GCC_STATEMENT_EXPRS=0"]),
    # counts the control-flow edges the library takes (the harness provides
    # the callback)
    "steps":  ("clang", COMMON + ["-O1", "-fno-builtin", "-fsanitize-coverage=trace-pc-guard"]),
    "fuzz":   ("clang", COMMON + ["-O1", "-fsanitize=fuzzer-no-link,address,undefined",
                                  "-fno-sanitize-recover=all",
                                  "-fno-sanitize=nonnull-attribute,pointer-overflow",
                                  "-DVH_FUZZ=1"]),
}


class BuildError(Exception):
    pass


def _read(p):
    with open(p, "rb") as f:
        return f.read()


def _h(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(len(p).to_bytes(8, "little"))
        h.update(p)
    return h.hexdigest()[:24]


def _run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout.decode(errors="replace")[-6000:]))


class Builder:
    def __init__(self):
        os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
        self.lock = open(os.path.join(BUILD, "lock"), "w")
        fcntl.flock(self.lock, fcntl.LOCK_EX)
        try:
            self._gen_version()
        finally:
            pass
        hs = sorted(glob.glob(REPO + "/include/**/*", recursive=True) +
                    glob.glob(REPO + "/src/**/*.h", recursive=True))
        hs = [h for h in hs if os.path.isfile(h) and not h.endswith(".in")
              and not h.endswith("config/version.h")]
        self.hdr = _h(*[x for h in hs for x in (h, _read(h))], _read(self.version_h))
        self.own = _h(_read(VERIF + "/lib/vh.h"),
                      *[_read(p) for p in sorted(glob.glob(VERIF + "/harness/*.h"))])
        self.pool = ThreadPoolExecutor(JOBS)

    def close(self):
        self.pool.shutdown()
        fcntl.flock(self.lock, fcntl.LOCK_UN)
        self.lock.close()

    def _gen_version(self):
        # The real build substitutes these from "git describe"; no property
        # depends on their values (C37 on how they belong together).
        inc = os.path.join(BUILD, "include", "libcork", "config")
        os.makedirs(inc, exist_ok=True)
        self.version_h = os.path.join(inc, "version.h")
        src = REPO + "/include/libcork/config/version.h.in"
        text = _read(src).decode() if os.path.exists(src) else ""
        for k, v in (("@CORK_VERSION_MAJOR@", "2"), ("@CORK_VERSION_MINOR@", "13"),
                     ("@CORK_VERSION_PATCH@", "7"), ("@CORK_VERSION@", "2.13.7-git"),
                     ("@CORK_GIT_SHA1@", "0123456789abcdef0123456789abcdef01234567")):
            text = text.replace(k, v)
        if not os.path.exists(self.version_h) or _read(self.version_h).decode() != text:
            with open(self.version_h, "w") as f:
                f.write(text)

    def incs(self):
        return ["-I" + REPO + "/include", "-I" + os.path.join(BUILD, "include"),
                "-I" + VERIF + "/lib", "-I" + VERIF + "/harness"]

    def obj(self, variant, src, extra=()):
        cc, flags = VARIANTS[variant]
        text = _read(src)
        own = self.own if src.startswith(VERIF) else ""
        key = _h(cc, " ".join(flags), " ".join(extra), src, text, self.hdr, own)
        out = os.path.join(BUILD, "obj", "%s-%s-%s.o" % (
            os.path.basename(src)[:-2], variant, key))
        if not os.path.exists(out):
            tmp = "%s.%d.tmp" % (out, os.getpid())
            _run([cc] + flags + list(extra) + self.incs() + ["-c", src, "-o", tmp])
            os.rename(tmp, out)
        return out

    def lib_sources(self):
        s = sorted(glob.glob(REPO + "/src/libcork/**/*.c", recursive=True))
        if not s:
            raise BuildError("no libcork sources in " + REPO)
        return s

    def prefetch(self, items):
        """items: (variant, src, extra) — compile in parallel."""
        futs = [self.pool.submit(self.obj, *i) for i in items]
        return [f.result() for f in futs]

    def lib_objs(self, variant, extra=()):
        return self.prefetch([(variant, s, extra) for s in self.lib_sources()])

    def link(self, variant, name, objs, ldflags=()):
        cc, flags = VARIANTS[variant]
        key = _h(variant, name, " ".join(ldflags), *sorted(objs))
        d = os.path.join(BUILD, "bin", variant)
        os.makedirs(d, exist_ok=True)
        out = os.path.join(d, name)
        stamp = os.path.join(d, "." + name + ".key")
        if os.path.exists(out) and os.path.exists(stamp) and _read(stamp).decode() == key:
            return out
        tmp = out + ".%d.tmp" % os.getpid()
        lf = [f.replace("fuzzer-no-link", "fuzzer") for f in flags]
        if variant == "O0":
            lf = lf + ["-Wl,--unresolved-symbols=ignore-all"]
        _run([cc] + lf + ["-o", tmp] + list(objs) + list(ldflags) + ["-lm"])
        os.rename(tmp, out)
        with open(stamp, "w") as f:
            f.write(key)
        return out

    def harness(self, variant, name, wrap=(), extra=(), sources=()):
        srcs = [VERIF + "/harness/%s.c" % name, VERIF + "/lib/vh.c"]
        srcs += [VERIF + "/harness/" + s for s in sources]
        futs = [self.pool.submit(self.obj, variant, s, tuple(extra)) for s in srcs]
        lib = self.lib_objs(variant)
        objs = [f.result() for f in futs] + lib
        ld = ["-Wl," + ",".join("--wrap=" + w for w in wrap)] if wrap else []
        return self.link(variant, name, objs, ld)

    def helper(self, name):
        """A stand-alone helper program (no libcork), for children."""
        src = VERIF + "/harness/%s.c" % name
        o = self.obj("plain", src)
        return self.link("plain", name, [o])

    def tool(self, variant, name):
        """One of the repository's own programs."""
        srcs = sorted(glob.glob(REPO + "/src/%s/*.c" % name))
        if not srcs:
            raise BuildError("no sources for " + name)
        objs = self.prefetch([(variant, s, ()) for s in srcs]) + self.lib_objs(variant)
        return self.link(variant, name, objs)
