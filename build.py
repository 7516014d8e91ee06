#!/usr/bin/env python3
"""Builds one check binary from /repo's current working tree.
   usage: build.py ID [flavour]      prints the path of the binary
Objects are cached by content hash below /verif/.cache (ignored by git): what is unchanged is not compiled again."""
import sys, os, hashlib, subprocess, glob, fcntl, shutil
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.environ.get("VERIF_CACHE", os.path.join(ROOT, ".cache"))

FLAVOURS = {
    # the build the project uses, plus libstdc++ assertions
    "plain": ("g++", "-O1 -g1 -D_GLIBCXX_ASSERTIONS -fno-omit-frame-pointer", "-O1 -g1", ""),
    "asan": ("clang++", "-O1 -g1 -fsanitize=address,undefined -fno-sanitize=vptr,function -fno-sanitize-recover=undefined -fno-omit-frame-pointer",
             "-O1 -g1 -fsanitize=address,undefined -fno-sanitize=vptr,function -fno-sanitize-recover=undefined", "-fsanitize=address,undefined"),
    "tsan": ("clang++", "-O1 -g1 -fsanitize=thread", "-O1 -g1 -fsanitize=thread", "-fsanitize=thread"),
    "cov": ("g++", "-O1 -g1 --coverage -fprofile-update=atomic", "-O1 -g1", "--coverage"),
}

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:32]

def rd(f):
    with open(f, "rb") as fh:
        return fh.read()

def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if r.returncode:
        sys.stderr.write("build failed: %s\n%s\n" % (" ".join(cmd), r.stdout.decode(errors="replace")[-8000:]))
        sys.exit(2)
    return r.stdout

def generate():
    P = os.path.join(REPO, "src/parser")
    gs = sorted(glob.glob(P + "/*.g"))
    key = sha(*[os.path.basename(g) for g in gs], *[rd(g) for g in gs])
    out = os.path.join(CACHE, "gen", key)
    if os.path.exists(out + "/.done"):
        return out
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    exe = next((e for e in (shutil.which(n) for n in ("antlr", "runantlr", "cantlr", "antlr2")) if e), "runantlr")
    for args in (["CommentTextLexer.g"], ["TextLexer.g"], ["-glib", "TextLexer.g", "OperatorLexer.g"],
                 ["-glib", "OperatorLexer.g;TextLexer.g", "KeywordLexer.g"],
                 ["-glib", "OperatorLexer.g;KeywordLexer.g;TextLexer.g", "srcMLParser.g"]):
        run([exe, "-o", out] + args, cwd=P)
    open(out + "/.done", "w").close()
    return out

def main():
    check = sys.argv[1]
    flavour = sys.argv[2] if len(sys.argv) > 2 else "plain"
    client = len(sys.argv) > 3 and sys.argv[3] == "client"
    cxx, lib_flags, chk_flags, link = FLAVOURS[flavour]
    os.makedirs(CACHE, exist_ok=True)
    lock = open(os.path.join(CACHE, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    gen = generate()
    objdir = os.path.join(CACHE, "obj")
    os.makedirs(objdir, exist_ok=True)
    os.makedirs(os.path.join(CACHE, "bin"), exist_ok=True)
    inc = ["-I" + REPO + "/src/libsrcml", "-I" + REPO + "/src/parser", "-I" + gen, "-I/usr/include/libxml2"]
    hdrs = sorted(glob.glob(REPO + "/src/libsrcml/*.h*") + glob.glob(REPO + "/src/parser/*.hpp") + glob.glob(gen + "/*.hpp"))
    hkey = sha(*[os.path.basename(h) for h in hdrs], *[rd(h) for h in hdrs])
    jobs = []
    common = "-DWITH_LIBXSLT -include algorithm -w -std=gnu++11 -fPIC -pthread".split()
    libsrc = [gen + "/srcMLParser.cpp", gen + "/KeywordLexer.cpp", gen + "/CommentTextLexer.cpp"]
    libsrc += sorted(glob.glob(REPO + "/src/parser/*.cpp")) + sorted(glob.glob(REPO + "/src/libsrcml/*.cpp"))
    for s in libsrc:
        jobs.append((s, common + lib_flags.split() + inc, hkey))
    if client:
        chd = sorted(glob.glob(REPO + "/src/client/*.hpp") + glob.glob(ROOT + "/client_stub/*"))
        ckey = sha(hkey, *[rd(h) for h in chd])
        cinc = ["-I" + ROOT + "/client_stub", "-I" + REPO + "/src/client"] + inc
        skip = {"srcml_cli.cpp", "srcml.cpp", "ParserTest.cpp"}
        for s in sorted(glob.glob(REPO + "/src/client/*.cpp")):
            if os.path.basename(s) not in skip:
                jobs.append((s, common + lib_flags.split() + cinc, ckey))
    vh = sorted(glob.glob(ROOT + "/lib/*.hpp"))
    vkey = sha(*[rd(h) for h in vh])
    vinc = ["-I" + ROOT + "/lib"] + inc + (["-I" + ROOT + "/client_stub", "-I" + REPO + "/src/client"] if client else [])
    vflags = ["-std=gnu++17", "-Wall", "-Wno-unused-function", "-pthread", "-DVERIF_ROOT_DIR=\"" + ROOT + "\""] + (["-DPBT_FLAVOUR_" + flavour.upper()])
    for s in sorted(glob.glob(ROOT + "/lib/*.cpp")) + [ROOT + "/checks/" + check + ".cpp"]:
        jobs.append((s, vflags + chk_flags.split() + vinc, sha(vkey, rd(REPO + "/src/libsrcml/srcml.h"), ckey if client else "")))

    def compile(job):
        s, flags, dep = job
        fl = [f.replace(gen, "GEN") for f in flags]
        key = sha(cxx, " ".join(fl), os.path.basename(s), rd(s), dep)
        o = os.path.join(objdir, os.path.basename(s) + "-" + key + ".o")
        if not os.path.exists(o):
            tmp = o + ".tmp.o"
            run([cxx] + flags + ["-c", s, "-o", tmp])
            os.rename(tmp, o)
        os.utime(o)
        return o

    # the largest first
    jobs.sort(key=lambda j: -os.path.getsize(j[0]))
    with ThreadPoolExecutor(max(2, os.cpu_count() or 2)) as ex:
        objs = list(ex.map(compile, jobs))
    exe = os.path.join(CACHE, "bin", check + "-" + flavour + "-" + sha(*objs)[:16])
    if not os.path.exists(exe):
        libs = "-lxml2 -lantlr -lxslt -lexslt -lrt -lcrypto -ldl".split()
        if client:
            libs += "-larchive -lcurl".split()
        run([cxx, "-pthread"] + link.split() + objs + libs + ["-o", exe + ".tmp"])
        os.rename(exe + ".tmp", exe)
    os.utime(exe)
    # keep the cache bounded
    for d, n in (("bin", 120), ("obj", 900)):
        fs = sorted(glob.glob(os.path.join(CACHE, d, "*")), key=os.path.getmtime)
        for f in fs[:-n]:
            os.unlink(f)
    gd = sorted(glob.glob(os.path.join(CACHE, "gen", "*")), key=os.path.getmtime)
    for g in gd[:-12]:
        if g != gen:
            shutil.rmtree(g, ignore_errors=True)
    print(exe)

main()
