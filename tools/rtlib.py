"""Build the analyser and the whole-program IR of /repo's working tree, run rules over it."""
import concurrent.futures, hashlib, json, os, shutil, subprocess, sys, glob

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("RT_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")
LLVM = "/usr/lib/llvm-18/bin"
CLANG = LLVM + "/clang++"
JOBS = max(1, os.cpu_count() or 1)

FLAGS = ("-DBUILDING_RIPTIDE_CPP -Driptide_cpp_EXPORTS "
         "-I/opt/vp/venv/lib/python3.12/site-packages/numpy/core/include "
         "-isystem /usr/include/python3.12 -isystem /opt/vp/venv/include -isystem /opt/vp/compat "
         "-DNDEBUG -D__GCC_DESTRUCTIVE_SIZE=64 -D__GCC_CONSTRUCTIVE_SIZE=64 "
         "-std=c++20 -fPIC -mavx2 -mbmi2 -fpermissive -pthread -fno-strict-aliasing -w").split()
IRFLAGS = "-O0 -Xclang -disable-O0-optnone -g -fno-standalone-debug -emit-llvm -c".split()
PASSES = "sroa,simplifycfg,early-cse"
JTPASSES = "function(sroa,early-cse,jump-threading,early-cse,jump-threading)"
JTRULES = {"exc", "nul", "type", "work"}


class Broken(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def filehash(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:20]


def prune(prefix, keep):
    """at most `keep` cached results of a kind"""
    ds = sorted(glob.glob(os.path.join(CACHE, prefix + "*")), key=os.path.getmtime, reverse=True)
    for d in ds[keep:]:
        shutil.rmtree(d, ignore_errors=True)


def analyser():
    src = glob.glob(os.path.join(VERIF, "engine", "*"))
    out = os.path.join(CACHE, "engine-" + filehash(src))
    exe = os.path.join(out, "rtsa")
    if not os.path.exists(exe):
        tmp = out + ".tmp%d" % os.getpid()
        os.makedirs(tmp, exist_ok=True)
        r = sh(["make", "-s", "-j%d" % JOBS, "-C", os.path.join(VERIF, "engine"), "OUT=" + tmp])
        if r.returncode or not os.path.exists(os.path.join(tmp, "rtsa")):
            raise Broken("analyser does not build:\n" + r.stdout[-2000:])
        if not os.path.exists(out):
            os.rename(tmp, out)
        else:
            shutil.rmtree(tmp, ignore_errors=True)
        prune("engine-", 2)
    return exe


def sources():
    s = sorted(glob.glob(os.path.join(REPO, "src", "*.cpp")) + glob.glob(os.path.join(REPO, "src", "logging", "*.cpp")))
    if len(s) < 20:
        raise Broken("only %d source files found" % len(s))
    return s


def headers():
    r = []
    for e in ("*.h", "*.hpp", "*.inl"):
        r += glob.glob(os.path.join(REPO, "src", "**", e), recursive=True)
    return r


def overlay(d):
    """clang rejects one never-instantiated lambda that gcc accepts; give it an equivalent spelling in memory"""
    p = os.path.join(REPO, "src", "basic_ops.h")
    if not os.path.exists(p):
        return []
    t = open(p).read()
    if ", y>)" not in t:
        return []
    f = os.path.join(d, "basic_ops.h")
    open(f, "w").write(t.replace(", y>)", ", decltype(y)>)"))
    y = os.path.join(d, "overlay.yaml")
    open(y, "w").write('{"version":0,"case-sensitive":"true","overlay-relative":false,"roots":[{"type":"file","name":"%s","external-contents":"%s"}]}' % (p, f))
    return ["-ivfsoverlay", y]


def codes(d, ov):
    """a translation unit that evaluates the named codes of the file format, beside their released values"""
    import re
    src, o = os.path.join(d, "rt_codes.cpp"), os.path.join(d, "rt_codes.bc")
    names = [l.split() for l in open(os.path.join(VERIF, "tools", "codes.txt")) if l.strip() and l[0] != "#"]
    head = ['#include "CommonInc.h"', '#include "SDSFile.h"']
    while names:
        body = ["extern const long long rt_code_%s, rt_released_%s; const long long rt_code_%s = (long long)(%s), rt_released_%s = %s;" % (n, n, n, n, n, v) for n, v in names]
        open(src, "w").write("\n".join(head + body) + "\n")
        r = sh([CLANG] + FLAGS + ov + ["-O0", "-ferror-limit=0", "-emit-llvm", "-c", src, "-I" + os.path.join(REPO, "src"), "-o", o])
        if not r.returncode:
            os.unlink(src)
            return [o]
        bad = {int(m) - len(head) - 1 for m in re.findall(r"rt_codes\.cpp:(\d+):\d+: error", r.stdout)}
        bad = {b for b in bad if 0 <= b < len(names)}
        if not bad:
            break
        names = [x for i, x in enumerate(names) if i not in bad]
    return []


def bitcode():
    """path of the linked whole-program bitcode"""
    srcs = sources()
    out = os.path.join(CACHE, "ir-" + filehash(srcs + headers() + [os.path.join(VERIF, "tools", "codes.txt")], " ".join(FLAGS + IRFLAGS) + PASSES + JTPASSES + REPO))
    bc = os.path.join(out, "all.bc")
    if os.path.exists(bc):
        os.utime(out)
        return bc, len(srcs)
    tmp = out + ".tmp%d" % os.getpid()
    os.makedirs(tmp, exist_ok=True)
    ov = overlay(tmp)

    def one(s):
        o = os.path.join(tmp, os.path.relpath(s, REPO).replace("/", "_") + ".bc")
        r = sh([CLANG] + FLAGS + ov + IRFLAGS + [s, "-o", o + ".0"])
        if r.returncode:
            return s, None, r.stdout[-1500:]
        r = sh([LLVM + "/opt", "-passes=" + PASSES, o + ".0", "-o", o])
        if r.returncode:
            return s, None, r.stdout[-1500:]
        os.unlink(o + ".0")
        # second flavour with correlated branches separated, for path-sensitive rules
        r = sh([LLVM + "/opt", "-passes=" + JTPASSES, o, "-o", o + ".jt"])
        if r.returncode:
            return s, None, r.stdout[-1500:]
        return s, o, ""

    srcs.sort(key=os.path.getsize, reverse=True)
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        res = list(ex.map(one, srcs))
    bad = [(s, e) for s, o, e in res if o is None]
    if bad:
        shutil.rmtree(tmp, ignore_errors=True)
        raise Broken("cannot compile %s:\n%s" % bad[0])
    extra = codes(tmp, ov)
    for name, ext in (("all.bc", ""), ("jt.bc", ".jt")):
        r = sh([LLVM + "/llvm-link", "-o", os.path.join(tmp, name)] + sorted(o + ext for _, o, _ in res) + extra)
        if r.returncode:
            shutil.rmtree(tmp, ignore_errors=True)
            raise Broken("llvm-link: " + r.stdout[-1500:])
        for _, o, _ in res:
            os.unlink(o + ext)
    if os.path.exists(out):
        shutil.rmtree(tmp, ignore_errors=True)
    else:
        os.rename(tmp, out)
    prune("ir-", 3)
    return bc, len(srcs)


def run_rules(rules, bc=None):
    exe = analyser()
    n = 0
    if bc is None:
        bc, n = bitcode()
        if set(rules) & JTRULES:
            bc = os.path.join(os.path.dirname(bc), "jt.bc")
    r = subprocess.run([exe, "--repo=" + REPO + "/"] + ["--rule=" + x for x in rules] + [bc],
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode:
        raise Broken("analyser failed (%d): %s" % (r.returncode, r.stderr[-1500:]))
    d = json.loads(r.stdout)
    d["translation_units"] = n
    return d


if __name__ == "__main__":
    if sys.argv[1:] == ["setup"]:
        print(analyser())
        print(bitcode()[0])
        sys.exit(0)
    json.dump(run_rules(sys.argv[1:]), sys.stdout)
