"""Loads the JSON documents written by the exporter and links them into one program."""
import json, os, glob, subprocess, sys, hashlib

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("KPA_REPO", "/repo")
BUILD = os.environ.get("KPA_BUILD", os.path.join(VERIF, "build"))

CLANG = "clang++-18" if os.path.exists("/usr/bin/clang++-18") else "clang++"
LLVM = "/usr/lib/llvm-18"


class AnalysisError(Exception):
    pass


class Type:
    __slots__ = ("s", "k", "w", "sg", "p", "n", "r", "args", "const", "repo", "size", "enums", "lam")

    def __repr__(self):
        return self.s

    @property
    def isref(self):
        return self.k in ("ref", "rref")

    def strip(self):
        return self.p if self.isref else self


class Callee:
    __slots__ = ("id", "n", "sn", "line", "repo", "ps", "ret", "noreturn", "variadic", "nothrow", "targs",
                 "cls", "static", "cm", "virt", "pure", "ctor", "copy", "move", "default", "dtor", "conv",
                 "casg", "masg", "op", "defaulted", "q")

    def __repr__(self):
        return "<%s>" % self.n


def strip_targs(n):
    """std::vector<char, A>::push_back -> std::vector::push_back (operators kept)."""
    if "<" not in n:
        return n
    out = []
    i = 0
    depth = 0
    L = len(n)
    while i < L:
        if n.startswith("operator", i) and depth == 0 and (i == 0 or n[i - 1] == ":"):
            out.append(n[i:])
            break
        c = n[i]
        if c == "<":
            depth += 1
        elif c == ">":
            depth -= 1
        elif depth == 0:
            out.append(c)
        i += 1
    return "".join(out)


TKEYS = ("t", "ft", "ct", "bt", "rt", "tt", "base", "cls")


class Program:
    def __init__(self):
        self.types = {}
        self.callees = {}
        self.funcs = {}
        self.records = {}
        self.globals = {}
        self.tus = []
        self.unsupported = 0
        self._uid = 0

    # -- linking ----------------------------------------------------------
    def load(self, path, tuidx):
        d = json.load(open(path))
        self.tus.append(d["tu"])
        self.unsupported += d["unsupported"]
        types = []
        for t in d["types"]:
            key = t["s"]
            if key in self.types and not t.get("lambda"):
                types.append(self.types[key])
                continue
            if t.get("lambda"):
                key = key + "#%d.%d" % (tuidx, len(types))
            T = Type()
            T.s = t["s"]
            T.k = t["k"]
            T.w = t.get("w")
            T.sg = t.get("sg")
            T.n = t.get("n")
            T.r = t.get("r")
            T.const = t.get("const", False)
            T.repo = t.get("repo", False)
            T.size = t.get("size")
            T.enums = t.get("enums")
            T.lam = t.get("lambda", False)
            T.p = t.get("p")
            T.args = t.get("args")
            self.types[key] = T
            types.append(T)

        callees = []
        raw_callees = d["callees"]
        for c in raw_callees:
            if c["id"] in self.callees:
                callees.append(self.callees[c["id"]])
                continue
            C = Callee()
            for f in Callee.__slots__:
                if f == "q":
                    continue
                setattr(C, f, c.get(f))
            C.ps = [types[i] for i in c["ps"]]
            C.ret = types[c["ret"]]
            C.cls = types[c["cls"]] if "cls" in c else None
            C.q = strip_targs(C.n)
            C.targs = (c.get("targs"), tuidx)
            self.callees[c["id"]] = C
            callees.append(C)

        def targ(x):
            if "t" in x:
                return types[x["t"]]
            if "i" in x:
                return x["i"]
            if "fn" in x:
                return callees[x["fn"]]
            if "pack" in x:
                return [targ(y) for y in x["pack"]]
            return None

        for T, t in zip(types, d["types"]):
            if isinstance(T.p, int):
                T.p = types[T.p]
            if T.args is not None and T.args and isinstance(T.args, list) and isinstance(T.args[0], dict):
                T.args = [targ(a) for a in T.args]
        for C in callees:
            if isinstance(C.targs, tuple):
                C.targs = [targ(a) for a in C.targs[0]] if C.targs[0] else []

        def conv(o):
            if isinstance(o, list):
                return [conv(x) for x in o]
            if isinstance(o, dict):
                self._uid += 1
                r = {"u": self._uid}
                for k, v in o.items():
                    if k in TKEYS and isinstance(v, int):
                        r[k] = types[v]
                    elif k == "c" and isinstance(v, int):
                        r[k] = callees[v]
                    elif k == "d" and isinstance(v, int):
                        r[k] = tuidx * 1000000 + v
                    elif k == "f" and isinstance(v, int):
                        r[k] = tuidx * 1000000 + v
                    elif isinstance(v, (dict, list)):
                        r[k] = conv(v)
                    else:
                        r[k] = v
                return r
            return o

        for fid, f in d["funcs"].items():
            if fid in self.funcs:
                continue
            self.funcs[fid] = conv(f)
            self.funcs[fid]["fid"] = fid
        for n, r in d["records"].items():
            if n in self.records and not r.get("lambda"):
                have = self.records[n]
                ids = {m["c"].id for m in have["methods"]}
                for m in r["methods"]:
                    mc = callees[m["c"]]
                    if mc.id not in ids:
                        have["methods"].append(dict(m, c=mc))
                continue
            rr = conv(r)
            rr["bases"] = [types[b] for b in r.get("bases", [])]
            if r.get("lambda"):
                n = n + "#%d" % tuidx
            self.records[n] = rr
        for n, g in d["globals"].items():
            if n in self.globals and self.globals[n].get("init") is not None:
                continue
            self.globals[n] = conv(g)

    # -- queries ----------------------------------------------------------
    def func(self, qname, pred=None):
        """All function bodies with this qualified name."""
        return [f for f in self.funcs.values() if f["n"] == qname and (pred is None or pred(f))]

    def record(self, qname):
        for k, r in self.records.items():
            if k == qname or r["n"] == qname:
                return r
        return None

    def bases_of(self, name):
        """Transitive base class names of an exception / stream class."""
        out = []
        todo = [name]
        while todo:
            n = todo.pop()
            if n in out:
                continue
            out.append(n)
            r = self.record(n)
            if r:
                todo += [b.r for b in r["bases"] if b.r]
            todo += STD_BASES.get(n, [])
        return out


STD_BASES = {
    "std::out_of_range": ["std::logic_error"],
    "std::invalid_argument": ["std::logic_error"],
    "std::length_error": ["std::logic_error"],
    "std::domain_error": ["std::logic_error"],
    "std::logic_error": ["std::exception"],
    "std::runtime_error": ["std::exception"],
    "std::range_error": ["std::runtime_error"],
    "std::overflow_error": ["std::runtime_error"],
    "std::bad_alloc": ["std::exception"],
    "std::bad_cast": ["std::exception"],
    "std::bad_function_call": ["std::exception"],
    "std::bad_weak_ptr": ["std::exception"],
    "std::ios_base::failure": ["std::runtime_error"],
    "std::system_error": ["std::runtime_error"],
}


def build_exporter():
    src = os.path.join(VERIF, "exporter", "kpfacts.cc")
    os.makedirs(BUILD, exist_ok=True)
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    exe = os.path.join(BUILD, "kpfacts-" + h)
    if os.path.exists(exe):
        return exe
    tmp = exe + ".tmp%d" % os.getpid()
    flags = subprocess.check_output(["llvm-config-18", "--cxxflags"], text=True).split()
    lib = None
    for c in ("libclang-cpp.so.18.1", "libclang-cpp.so.18", "libclang-cpp.so"):
        for d in (LLVM + "/lib", "/usr/lib/x86_64-linux-gnu"):
            if os.path.exists(os.path.join(d, c)):
                lib = os.path.join(d, c)
                break
        if lib:
            break
    cmd = [CLANG, "-O0", "-fno-rtti", "-w"] + flags + [src, "-o", tmp, lib, "-L" + LLVM + "/lib", "-lLLVM-18",
                                                       "-Wl,-rpath," + LLVM + "/lib"]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise AnalysisError("exporter does not build: " + r.stderr[:2000])
    os.rename(tmp, exe)
    return exe


def sources():
    src = os.path.join(REPO, "src")
    return sorted(f for f in glob.glob(os.path.join(src, "*.cc")) if os.path.basename(f) != "pugixml.cc")


def load_program(workdir, defines=("-DDEBUG",)):
    exe = build_exporter()
    files = sources()
    if not files:
        raise AnalysisError("no sources below " + REPO)
    procs = []
    # instantiates every member of the class templates of the model, used by the library or not
    probe = os.path.join(workdir, "probe.cc")
    with open(probe, "w") as fh:
        fh.write("#include <string>\n#include \"%s\"\ntemplate class keepass::protect<std::string>;\n"
                 % os.path.join(REPO, "src", "security.hh"))
    for f in files + [probe]:
        out = os.path.join(workdir, os.path.basename(f) + ".json")
        cmd = [exe, os.path.join(REPO, "src"), out, f, "--", "-std=c++11", "-include", "limits"] + list(defines) + ["-w",
               "-resource-dir", LLVM + "/lib/clang/18"]
        procs.append((f, out, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)))
    P = Program()
    bad = []
    for i, (f, out, p) in enumerate(procs):
        so, se = p.communicate()
        if p.returncode or not os.path.exists(out):
            if f == probe:
                continue
            bad.append(f + ": " + se[-800:])
            continue
    if bad:
        raise AnalysisError("translation units not parsed: " + "; ".join(bad))
    for i, (f, out, p) in enumerate(procs):
        if os.path.exists(out):
            P.load(out, i + 1)
    P.defines = tuple(defines)
    P.files = [os.path.basename(f) for f in files]
    return P
