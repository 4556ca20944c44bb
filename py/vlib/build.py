"""Builds libtoywasm and the harness programs from /repo's working tree.

The tracked and untracked-but-not-ignored files of /repo are mirrored into
build/src (only files whose content changed are rewritten, so that ninja
rebuilds what is needed) and built there.  /repo itself is never written."""
import fcntl
import os
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD") or os.path.join(ROOT, "build")
SRC = os.path.join(BUILD, "src")

FEATURES = """WASM_EXCEPTION_HANDLING WASM_EXTENDED_CONST WASM_MULTI_MEMORY
WASM_TAILCALL WASM_THREADS WASI_THREADS WASM_CUSTOM_PAGE_SIZES DYLD
DYLD_DLFCN""".split()

VARIANTS = {
    # as in the project's CI, without LTO (needed for --wrap, and faster)
    "rel": ["-DCMAKE_C_COMPILER=/usr/bin/clang-18",
            "-DCMAKE_BUILD_TYPE=Release", "-DUSE_IPO=OFF"],
    # assertions, ASan, LSan, artificial restarts
    "dbg": ["-DCMAKE_C_COMPILER=/usr/bin/gcc", "-DCMAKE_BUILD_TYPE=Debug"],
    # the other side of the documented build options
    "alt": ["-DCMAKE_C_COMPILER=/usr/bin/gcc", "-DCMAKE_BUILD_TYPE=Release",
            "-DUSE_IPO=OFF",
            "-DTOYWASM_USE_SEPARATE_EXECUTE=OFF",
            "-DTOYWASM_USE_JUMP_BINARY_SEARCH=OFF",
            "-DTOYWASM_USE_LOCALS_CACHE=OFF",
            "-DTOYWASM_USE_SEPARATE_LOCALS=OFF",
            "-DTOYWASM_PREALLOC_SHARED_MEMORY=ON"],
    # one handler per instruction, the other cache of jumps, no indices
    "oth": ["-DCMAKE_C_COMPILER=/usr/bin/gcc", "-DCMAKE_BUILD_TYPE=Release",
            "-DUSE_IPO=OFF",
            "-DTOYWASM_USE_SEPARATE_VALIDATE=ON",
            "-DTOYWASM_PROCESS_INSN_WITH_SWITCH=OFF",
            "-DTOYWASM_USE_TAILCALL=OFF",
            "-DTOYWASM_USE_JUMP_CACHE=ON",
            "-DTOYWASM_JUMP_CACHE2_SIZE=0",
            "-DTOYWASM_USE_RESULTTYPE_CELLIDX=OFF",
            "-DTOYWASM_USE_LOCALTYPE_CELLIDX=OFF",
            "-DTOYWASM_SORT_EXPORTS=OFF"],
    # values of any type in cells of one size (there are no exceptions then)
    "big": ["-DCMAKE_C_COMPILER=/usr/bin/gcc", "-DCMAKE_BUILD_TYPE=Release",
            "-DUSE_IPO=OFF",
            "-DTOYWASM_USE_SMALL_CELLS=OFF",
            "-DTOYWASM_ENABLE_WASM_EXCEPTION_HANDLING=OFF"],
    # threads of programs scheduled by the library itself
    "usr": ["-DCMAKE_C_COMPILER=/usr/bin/gcc", "-DCMAKE_BUILD_TYPE=Debug",
            "-DTOYWASM_USE_USER_SCHED=ON"],
}


class BuildError(Exception):
    pass


def repo_files():
    r = subprocess.run(["git", "-C", REPO, "-c", "safe.directory=*", "ls-files",
                        "-co", "--exclude-standard", "-z"],
                       capture_output=True)
    if r.returncode != 0:
        raise BuildError("git ls-files: " + r.stderr.decode())
    return [f for f in r.stdout.decode().split("\0")
            if f and os.path.isfile(os.path.join(REPO, f))]


def sync():
    want = set(repo_files())
    for f in want:
        s = os.path.join(REPO, f)
        d = os.path.join(SRC, f)
        with open(s, "rb") as fp:
            c = fp.read()
        try:
            with open(d, "rb") as fp:
                if fp.read() == c:
                    continue
        except FileNotFoundError:
            os.makedirs(os.path.dirname(d), exist_ok=True)
        with open(d, "wb") as fp:
            fp.write(c)
        os.chmod(d, os.stat(s).st_mode & 0o777)
    for dp, dn, fn in os.walk(SRC):
        for f in fn:
            p = os.path.join(dp, f)
            if os.path.relpath(p, SRC) not in want:
                os.unlink(p)


def run(cmd, log, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    with open(log, "ab") as fp:
        fp.write((" ".join(cmd) + "\n").encode() + r.stdout)
    if r.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd),
                                     r.stdout.decode(errors="replace")[-6000:]))


def build(variants=("rel", "dbg"), targets=("twdrv",), cli=False):
    """Returns {variant: {"bin": dir of harness binaries, "cli": path}}."""
    os.makedirs(BUILD, exist_ok=True)
    env = dict(os.environ)
    for k in ("CC", "CXX", "CFLAGS", "CXXFLAGS", "LDFLAGS", "DESTDIR",
              "CMAKE_TOOLCHAIN_FILE"):
        env.pop(k, None)
    env["PATH"] = "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    env["LC_ALL"] = "C.UTF-8"
    env["CCACHE_DISABLE"] = "1"
    res = {}
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        sync()
        for v in variants:
            d = os.path.join(BUILD, v)
            os.makedirs(d, exist_ok=True)
            log = os.path.join(d, "log")
            open(log, "w").close()
            tw = os.path.join(d, "toywasm")
            if not os.path.exists(os.path.join(tw, "build.ninja")):
                run(["cmake", "-S", SRC, "-B", tw, "-G", "Ninja",
                     "-DCMAKE_INSTALL_PREFIX=" + os.path.join(d, "prefix"),
                     "-DBUILD_TESTING=OFF", "-DTOYWASM_BUILD_UNITTEST=OFF",
                     "-DTOYWASM_EXTRA_CFLAGS=-Wno-error"]
                    + ["-DTOYWASM_ENABLE_%s=ON" % f for f in FEATURES] + VARIANTS[v],
                    log, env=env)
            run(["ninja", "-C", tw], log, env=env)
            # cmake --install does not touch up-to-date files
            run(["cmake", "--install", tw], log, env=env)
            h = os.path.join(d, "harness")
            if not os.path.exists(os.path.join(h, "build.ninja")):
                run(["cmake", "-S", os.path.join(ROOT, "harness"), "-B", h,
                     "-G", "Ninja",
                     "-DCMAKE_PREFIX_PATH=" + os.path.join(d, "prefix")]
                    + [x for x in VARIANTS[v] if x.startswith("-DCMAKE")]
                    + (["-DCMAKE_C_FLAGS=-fsanitize=address"] if v == "dbg" else [])
                    + ["-DVARIANT=" + v], log, env=env)
            run(["ninja", "-C", h] + list(targets), log, env=env)
            res[v] = {"bin": h, "cli": os.path.join(tw, "toywasm"), "dir": d}
    return res


if __name__ == "__main__":
    vs = sys.argv[1:] or ["rel", "dbg"]
    build(vs, ("all",))
