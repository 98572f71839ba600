"""Compile /repo's current sources to LLVM IR and load them."""
import os, subprocess, sys, tempfile, atexit, shutil, glob, re, hashlib
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")
FLAGS = ["-std=c++17", "-D__LOCK_FREE__", "-DMB_ENABLE_TRAVERSAL_LIMIT", "-I" + REPO + "/src",
         "-I" + REPO + "/src/util", "-I" + REPO + "/binaries"]
CLANG = "clang++-18"
_scratch = None


class BuildError(Exception):
    pass


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="mbverif.")
        pid = os.getpid()

        def clean():
            if os.getpid() == pid:
                shutil.rmtree(_scratch, ignore_errors=True)
        atexit.register(clean)
    return _scratch


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd)[:300], r.stdout[-3000:]))
    return r.stdout


def sources():
    l = sorted(glob.glob(REPO + "/src/*.cpp") + glob.glob(REPO + "/src/util/*.cpp") + glob.glob(REPO + "/src/detail/*.cpp"))
    l += [REPO + "/binaries/expr_parser.cpp", REPO + "/binaries/hexbin.cpp"]
    return [s for s in l if os.path.exists(s)]


PASSES = "function(sroa,simplifycfg<no-switch-to-lookup;no-sink-common-insts;no-hoist-common-insts>,instsimplify,early-cse,simplifycfg<no-switch-to-lookup>)"


def compile_ir(extra_src=()):
    d = scratch()
    srcs = sources() + list(extra_src)

    def one(s):
        o = os.path.join(d, hashlib.md5(s.encode()).hexdigest()[:10] + ".bc")
        sh([CLANG] + FLAGS + ["-O1", "-Xclang", "-disable-llvm-passes", "-fno-strict-aliasing", "-fno-access-control",
                              "-w", "-emit-llvm", "-c", s, "-o", o])
        return o
    for s_ in extra_src:
        prune(s_)
    with ThreadPoolExecutor(8) as ex:
        outs = list(ex.map(one, srcs))
    allbc = os.path.join(d, "all.bc")
    sh(["llvm-link-18"] + outs + ["-o", allbc])
    opt = os.path.join(d, "opt.bc")
    sh(["opt-18", "-passes=" + PASSES, allbc, "-o", opt])
    return opt


def prune(path):
    """drop the layout queries the current sources do not answer (a renamed member makes
    only the proofs that need it undecided)"""
    for _ in range(6):
        r = subprocess.run([CLANG] + FLAGS + ["-fno-access-control", "-w", "-fsyntax-only", "-ferror-limit=0", path],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        bad = {int(x) for x in re.findall(re.escape(path) + r":(\d+):\d+: (?:fatal )?error", r.stdout)}
        if not r.returncode or not bad:
            return
        lines = open(path).read().split("\n")
        for b in bad:
            lines[b - 1] = ""
        open(path, "w").write("\n".join(lines))


class LayoutMissing(Exception):
    pass


class Layout:
    def __init__(self, mod):
        self.mod = mod

    def get(self, name):
        ini = None
        if "vL_" + name in self.mod.globals:
            t, ini, c = self.mod.global_init("vL_" + name)
        if ini is None or ini[0] not in ("zero", "c"):
            raise LayoutMissing("layout constant " + name)
        return 0 if ini[0] == "zero" else ini[2]

    def off(self, cls, path):
        return self.get("off_" + cls + "_" + re.sub(r"\W+", "_", path))

    def size(self, cls):
        return self.get("size_" + cls)

    def const(self, n):
        parts = n.split("::")
        if len(parts) == 2:
            g = "_ZN6mabain%d%s%d%sE" % (len(parts[0]), parts[0], len(parts[1]), parts[1])
            if g in self.mod.globals:
                t, ini, c = self.mod.global_init(g)
                if ini is not None and ini[0] in ("zero", "c"):
                    return 0 if ini[0] == "zero" else ini[2]
        return self.get("c_" + re.sub(r"\W+", "_", n))


def layout_src(offs, sizes, consts, headers):
    d = scratch()
    p = os.path.join(d, "layout.cpp")
    with open(p, "w") as f:
        f.write("#define private public\n#define protected public\n" if False else "")
        for h in headers:
            f.write('#include "%s"\n' % h)
        f.write("#include <cstddef>\n#pragma clang diagnostic ignored \"-Winvalid-offsetof\"\nusing namespace mabain;\n")
        for cls, path in offs:
            f.write("extern \"C\" const unsigned long vL_off_%s_%s = __builtin_offsetof(%s, %s);\n" % (
                re.sub(r"\W+", "_", cls), re.sub(r"\W+", "_", path), cls, path))
        for cls in sizes:
            f.write("extern \"C\" const unsigned long vL_size_%s = sizeof(%s);\n" % (re.sub(r"\W+", "_", cls), cls))
        for c in consts:
            f.write("extern \"C\" const long vL_c_%s = (long)(%s);\n" % (re.sub(r"\W+", "_", c), c))
    return p


def demangle(names):
    r = subprocess.run(["c++filt"], input="\n".join(names), stdout=subprocess.PIPE, text=True)
    return r.stdout.split("\n")[:len(names)]


_modcache = {}


def load(offs=(), sizes=(), consts=(), headers=()):
    import llir
    ls = layout_src(offs, sizes, consts, headers)
    bc = compile_ir([ls])
    m = llir.Module(bc)
    L = Layout(m)
    names = list(m.names)
    dm = demangle(names)
    m.demangled = dict(zip(names, dm))
    m.by_demangled = {}
    for n, d in zip(names, dm):
        m.by_demangled.setdefault(d, n)
    return m, L


def find(m, pat):
    """mangled name of the function whose demangled signature matches pat (prefix up to '(' or regex)"""
    r = [n for d, n in m.by_demangled.items() if d.split("(")[0] == pat]
    if not r:
        r = [n for d, n in m.by_demangled.items() if d.startswith(pat)]
    return r
