"""Builds variants of the tree in /repo in a scratch directory."""
import os, shutil, subprocess, sys

REPO = os.environ.get("VERIF_REPO", "/repo")

VARIANTS = {
    "plain": "gcc -O1 -g",
    "o2": "gcc -O2 -fwrapv",
    "clang": "clang -O1 -g",
    "pattern": "clang -O1 -fwrapv -ftrivial-auto-var-init=pattern",
    "zero": "clang -O2 -fwrapv -ftrivial-auto-var-init=zero",
    "asan": "clang -O1 -g -fno-omit-frame-pointer -fsanitize=address,undefined "
            "-fno-sanitize=function,shift,signed-integer-overflow -fno-sanitize-recover=all",
    # the same, and every object from the program's pool allocator has its own redzones
    "asanp": "clang -O1 -g -fno-inline -fno-omit-frame-pointer -fsanitize=address,undefined "
             "-fno-sanitize=function,shift,signed-integer-overflow -fno-sanitize-recover=all",
    "msan": "clang -O1 -g -fno-omit-frame-pointer -fsanitize=memory -fsanitize-memory-track-origins=1 "
            "-fno-sanitize-recover=all",
    "cov": "clang -O1 -g -fsanitize-coverage=inline-8bit-counters,pc-table",
}


class BuildError(Exception):
    pass


def build(base, variant, tools=()):
    """Builds one variant below base; returns the directory with dasm, ftohex and the tools."""
    d = os.path.join(base, "build-" + variant)
    if os.path.exists(os.path.join(d, "dasm")) and os.path.exists(os.path.join(d, "ftohex")):
        return d
    shutil.copytree(os.path.join(REPO, "src"), d,
                    ignore=shutil.ignore_patterns("*.o", "*.d", "dasm", "ftohex", "ftobin"))
    env = {k: v for k, v in os.environ.items()
           if k not in ("MAKEFLAGS", "MAKELEVEL", "MFLAGS", "CFLAGS", "LDFLAGS", "CPPFLAGS", "OS", "MAKEFILES")}
    env["LC_ALL"] = "C"
    p = subprocess.run(["make", "-s", "-j8", "CC=" + VARIANTS[variant], "dasm", "ftohex"] + list(tools), cwd=d, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode or not all(os.path.exists(os.path.join(d, x)) for x in ("dasm", "ftohex", *tools)):
        raise BuildError("%s build failed:\n%s" % (variant, p.stdout.decode("latin-1")[-3000:]))
    if variant == "asanp":
        split_pool(d, env)
    return d


POOL = """#include <stdlib.h>
char *permalloc(int bytes);
char *permalloc(int bytes) { return calloc(1, bytes > 0 ? bytes : 1); }
"""


def split_pool(d, env):
    """Links dasm with an allocator of one object each in the place of its pool allocator, if there is one of that name."""
    objs = sorted(f for f in os.listdir(d) if f.endswith(".o"))
    with open(os.path.join(d, "pool-shim.c"), "w") as f:
        f.write(POOL)
    cc = VARIANTS["asanp"]
    for argv in [cc.split() + ["-c", "pool-shim.c"]] + [["objcopy", "--weaken-symbol=permalloc", o] for o in objs]:
        if subprocess.run(argv, cwd=d, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode:
            return
    os.rename(os.path.join(d, "dasm"), os.path.join(d, "dasm.pool"))
    p = subprocess.run(["make", "-s", "CC=" + cc, "LDFLAGS=pool-shim.o", "dasm"], cwd=d, env=env,
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    if p.returncode or not os.path.exists(os.path.join(d, "dasm")):
        os.rename(os.path.join(d, "dasm.pool"), os.path.join(d, "dasm"))
