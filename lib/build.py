"""Builds apex from /repo's current working tree, with its own object cache.

Variants:
  worker  - harness/worker.c + the whole library, clang -O1 -fsanitize=address
  apex    - the command line program (plain -O1)
  apexa   - the command line program under AddressSanitizer
  fuzz    - harness/fuzz.c, clang -fsanitize=fuzzer,address
Objects are cached by the hash of (source, all headers, flags), so a check on an
edited tree recompiles only what changed; nothing else is reused.
"""
import hashlib, os, re, subprocess, sys, fcntl, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
SHIM = os.path.join(VERIF, "harness", "shim")
BASE = ["-std=gnu99", "-g", "-O1", "-w", "-Wno-error=implicit-function-declaration",
        "-fno-omit-frame-pointer", "-D_GNU_SOURCE", "-DAPEX_HAVE_LIBYAML=1",
        "-I", REPO + "/include", "-I", REPO + "/src", "-I", SHIM,
        "-I", "/usr/include/cmark-gfm"]
LINK = ["-l:libcmark-gfm-extensions.a", "-l:libcmark-gfm.a", "-lyaml", "-lm", "-lpthread"]


class BuildError(Exception):
    pass


def lib_sources():
    txt = open(REPO + "/CMakeLists.txt", encoding="utf-8", errors="replace").read()
    m = re.search(r"set\(\s*APEX_LIB_SOURCES(.*?)\)", txt, re.S)
    if not m:
        raise BuildError("APEX_LIB_SOURCES not found")
    body = re.sub(r"#.*", "", m.group(1))
    res = []
    for s in body.split():
        s = s.strip('"').replace("${CMAKE_CURRENT_SOURCE_DIR}/", "")
        if s.endswith(".c") and os.path.exists(os.path.join(REPO, s)):
            res.append(os.path.join(REPO, s))
    return res


def header_hash():
    h = hashlib.sha256()
    roots = [REPO + "/include", REPO + "/src", SHIM]
    files = []
    for r in roots:
        for d, ds, fs in os.walk(r):
            ds.sort()
            for f in fs:
                if not f.endswith(".c"):
                    files.append(os.path.join(d, f))
    for f in sorted(files):
        h.update(f.encode() + b"\0")
        h.update(open(f, "rb").read())
    return h.hexdigest()


def all_c_hash():
    h = hashlib.sha256()
    for d, ds, fs in os.walk(REPO + "/src"):
        ds.sort()
        for f in sorted(fs):
            if f.endswith(".c"):
                h.update(open(os.path.join(d, f), "rb").read())
    return h.hexdigest()


def sh(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise BuildError(" ".join(cmd) + "\n" + p.stdout.decode(errors="replace")[-4000:])


def obj(src, cc, flags, hh):
    data = open(src, "rb").read()
    key = hashlib.sha256(b"\0".join([src.encode(), data, hh.encode(), cc.encode(), " ".join(flags).encode()])).hexdigest()[:32]
    # a .c file that includes other .c files: its key covers every source
    if re.search(rb'#\s*include\s+"[^"]+\.c"', data):
        key = hashlib.sha256((key + all_c_hash()).encode()).hexdigest()[:32]
    o = os.path.join(BUILD, "obj", key + ".o")
    if not os.path.exists(o):
        tmp = o + ".%d.tmp" % os.getpid()
        sh([cc] + flags + ["-c", src, "-o", tmp])
        os.replace(tmp, o)
    return o, key


def build(variant):
    """returns the path of the built binary"""
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        cc = "clang"
        san = {"worker": ["-fsanitize=address"], "apexa": ["-fsanitize=address"], "apex": [],
               "fuzz": ["-fsanitize=fuzzer-no-link,address"]}[variant]
        lsan = {"worker": ["-fsanitize=address"], "apexa": ["-fsanitize=address"], "apex": [],
                "fuzz": ["-fsanitize=fuzzer,address"]}[variant]
        flags = BASE + san
        srcs = lib_sources() + [SHIM + "/shim.c"]
        if variant == "worker":
            srcs.append(VERIF + "/harness/worker.c")
        elif variant == "fuzz":
            srcs.append(VERIF + "/harness/fuzz.c")
        else:
            srcs.append(REPO + "/cli/main.c")
        hh = header_hash()
        with ThreadPoolExecutor(8) as ex:
            objs = list(ex.map(lambda s: obj(s, cc, flags, hh), srcs))
        key = hashlib.sha256((variant + "".join(k for _, k in objs) + "".join(LINK)).encode()).hexdigest()[:24]
        out = os.path.join(BUILD, "%s-%s" % (variant, key))
        if not os.path.exists(out):
            for f in os.listdir(BUILD):
                if f.startswith(variant + "-"):
                    try: os.unlink(os.path.join(BUILD, f))
                    except OSError: pass
            tmp = out + ".tmp"
            sh([cc] + lsan + ["-o", tmp] + [o for o, _ in objs] + LINK)
            os.replace(tmp, out)
        return out
    finally:
        lock.close()


if __name__ == "__main__":
    for v in sys.argv[1:] or ["worker", "apex", "apexa"]:
        print(build(v))
