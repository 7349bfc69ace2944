"""Builds the broker from /repo's working tree, and the shim, into /verif/build (git-ignored). Nothing is written in /repo."""
import fcntl, hashlib, os, re, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("FMQ_REPO", "/repo")
B = os.path.join(VERIF, "build")
PCH = """string vector map unordered_map memory functional mutex shared_mutex chrono list forward_list deque set unordered_set optional variant
thread atomic sstream iostream fstream iomanip regex random algorithm exception stdexcept string_view array any future condition_variable
openssl/ssl.h openssl/err.h openssl/evp.h openssl/rand.h""".split()


class BuildError(Exception):
    pass


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if p.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout.decode(errors="replace")[-4000:]))


def sources():
    with open(os.path.join(REPO, "CMakeLists.shared")) as f:
        t = f.read()
    names = re.findall(r"\$\{RELPATH\}([A-Za-z0-9_./-]+\.c(?:pp|c|xx)?)\b", t)
    with open(os.path.join(REPO, "CMakeLists.txt")) as f:
        m = re.search(r"add_executable\(flashmq(.*?)\)", f.read(), re.S)
    names += re.findall(r"^\s*([A-Za-z0-9_./-]+\.c(?:pp|c|xx)?)\s*$", m.group(1), re.M)
    return sorted(set(names))


def ensure(variant="std"):
    """variant: std | tsan. Returns the path of the binary."""
    os.makedirs(B, exist_ok=True)
    with open(os.path.join(B, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return _ensure(variant)


def _ensure(variant):
    shim = os.path.join(B, "shim.so")
    src = os.path.join(VERIF, "harness", "shim.c")
    if not os.path.exists(shim) or os.path.getmtime(shim) < os.path.getmtime(src):
        run(["gcc", "-O2", "-g", "-shared", "-fPIC", "-o", shim, src, "-ldl", "-lpthread"])
    plug = os.path.join(B, "plugin.so")
    run((["ccache"] if os.path.exists("/usr/bin/ccache") else []) + ["g++", "-std=gnu++20", "-O1", "-fPIC", "-I", REPO, "-c", "-o", plug + ".o", os.path.join(VERIF, "harness", "plugin.cpp")],
        env=dict(os.environ, CCACHE_DIR=os.path.join(B, "ccache")))
    run(["g++", "-shared", "-o", plug + ".tmp", plug + ".o"])
    os.rename(plug + ".tmp", plug)
    d = os.path.join(B, "obj-" + variant)
    os.makedirs(d, exist_ok=True)
    flags = ["-std=gnu++20", "-msse4.2", "-fvisibility=hidden", "-fvisibility-inlines-hidden", "-DOPENSSL_API_COMPAT=0x10100000L",
             '-DFLASHMQ_VERSION="1.26.2"', "-DNDEBUG", "-w", "-O0"]
    if variant == "tsan":
        flags += ["-fsanitize=thread", "-g1"]
    h = os.path.join(d, "pch.h")
    pch = os.path.join(d, "pch.pch")
    if not os.path.exists(pch):
        with open(h, "w") as f:
            f.write("".join("#include <%s>\n" % x for x in PCH))
        run(["clang++"] + flags + ["-x", "c++-header", "-fpch-instantiate-templates", "-Xclang", "-fno-pch-timestamp", h, "-o", pch + ".tmp"])
        os.rename(pch + ".tmp", pch)
    env = dict(os.environ, CCACHE_DIR=os.path.join(B, "ccache"), CCACHE_SLOPPINESS="pch_defines,time_macros,include_file_mtime,include_file_ctime",
               CCACHE_MAXSIZE="300M", CCACHE_NOHASHDIR="1")
    cc = ["ccache", "clang++"] if os.path.exists("/usr/bin/ccache") else ["clang++"]

    def one(s):
        o = os.path.join(d, s.replace("/", "_") + ".o")
        run(cc + flags + ["-include-pch", pch, "-c", os.path.join(REPO, s), "-o", o], env=env)
        return o

    srcs = sources()
    # the long ones first
    srcs.sort(key=lambda s: -os.path.getsize(os.path.join(REPO, s)))
    with ThreadPoolExecutor(os.cpu_count()) as ex:
        objs = list(ex.map(one, srcs))
    out = os.path.join(B, "flashmq-" + variant)
    run(["clang++", "-rdynamic", "-o", out + ".tmp"] + (["-fsanitize=thread"] if variant == "tsan" else [])
        + sorted(objs) + ["-lpthread", "-ldl", "-lssl", "-lcrypto", "-lresolv", "-lanl"])
    os.rename(out + ".tmp", out)
    return out


if __name__ == "__main__":
    print(ensure(*(sys.argv[1:2])))
