"""Analysis context, obligations and reports."""
import collections
import json
import os
import tempfile
import time

from . import facts, interp, models
from .facts import AnalysisError, VERIF
from .terms import *

CONFIGS = {"quick": (("-DDEBUG",),), "thorough": (("-DDEBUG",), ())}


class Root:
    """Result of interpreting one entry point."""

    def __init__(self, ctx, f, I, S, v, thrown):
        self.ctx, self.f, self.I, self.S, self.v, self.thrown = ctx, f, I, S, v, thrown
        self.name = f["n"]
        self.nodes = I.nodes
        self._succ = None
        self._byname = None

    def by(self, kind, name=None):
        return [n for n in sorted(self.nodes.values(), key=lambda n: n.id)
                if n.kind == kind and (name is None or n.name == name)]

    @property
    def succ(self):
        if self._succ is None:
            s = collections.defaultdict(set)
            for n in self.nodes.values():
                for p in n.preds:
                    s[p].add(n.id)
            self._succ = s
        return self._succ

    def start(self):
        return self.by("start")[0]

    def ret(self):
        r = self.by("return")
        return r[0] if r else None

    def head(self, key):
        """Head node of a loop."""
        n = self.nodes.get(key + 1)
        return n if n is not None and n.kind == "loop" else None

    def skips(self, key, need):
        """An iteration of the loop can complete without passing one of the given nodes."""
        h = self.head(key)
        if h is None:
            return None
        seen, todo = set(), list(self.succ[h.id])
        while todo:
            x = todo.pop()
            if x in seen or x in need:
                continue
            seen.add(x)
            if x == h.id:
                return True
            if key not in self.nodes[x].loops:
                continue
            todo += self.succ[x]
        return False

    def reach(self, src, avoid=(), targets=None):
        """Node ids reachable from src (exclusive) without entering avoid."""
        seen = set()
        todo = list(self.succ[src])
        while todo:
            x = todo.pop()
            if x in seen or x in avoid:
                continue
            seen.add(x)
            todo.extend(self.succ[x])
        return seen

    def back(self, dst, avoid=()):
        seen = set()
        todo = list(self.nodes[dst].preds)
        while todo:
            x = todo.pop()
            if x in seen or x in avoid or x not in self.nodes:
                continue
            seen.add(x)
            todo.extend(self.nodes[x].preds)
        return seen

    def functions(self):
        s = set()
        for n in self.nodes.values():
            for q, f, l in n.stack:
                s.add(q)
        return s


class Ctx:
    def __init__(self, defines=("-DDEBUG",)):
        self.tmp = tempfile.mkdtemp(prefix="kpa")
        try:
            self.P = facts.load_program(self.tmp, defines)
        finally:
            for fn in os.listdir(self.tmp):
                os.unlink(os.path.join(self.tmp, fn))
            os.rmdir(self.tmp)
        self.defines = defines
        self._roots = {}

    def find(self, qname, pred=None):
        return self.P.func(qname, pred)

    def has(self, qname):
        return bool(self.P.func(qname))

    def root(self, qname, pred=None, extra_prims=(), tag=None, noprims=()):
        k = (qname, tag)
        if k in self._roots:
            return self._roots[k]
        fs = self.P.func(qname, pred)
        if not fs:
            raise AnalysisError("function not found: " + qname)
        self._roots[k] = r = self.run(fs[0], extra_prims, noprims)
        return r

    def run(self, f, extra_prims=(), noprims=(), markers=False, **kw):
        """markers: branches of if statements become nodes of the event graph."""
        k = ("f", f["fid"], tuple(extra_prims), tuple(noprims), markers)
        if not kw and k in self._roots:
            return self._roots[k]
        I = interp.Interp(self.P, (models.PRIMITIVES | set(extra_prims)) - {f["c"].q} - set(noprims))
        I.markers = markers
        S, v, th = I.run_root(f, **kw)
        r = Root(self, f, I, S, v, th)
        if not kw:
            self._roots[k] = r
        return r


def at(n):
    """file:line of a node or location tuple."""
    if isinstance(n, tuple):
        return "%s:%s" % (n[0], n[1])
    return "%s:%s" % (n.file, n.line)


class Report:
    def __init__(self, prop):
        self.prop = prop
        self.oks = collections.Counter()
        self.bads = {}
        self.unds = {}
        self.counts = collections.Counter()
        self.samples = collections.defaultdict(list)
        self.rules = collections.OrderedDict()
        self.notes = []

    def rule(self, name, text):
        self.rules[name] = text

    def ok(self, rule, where=None, what=None):
        self.oks[rule] += 1
        if what is not None and len(self.samples[rule]) < 40:
            self.samples[rule].append("%s: %s" % (where, what) if where else what)

    def bad(self, rule, key, where, msg):
        self.bads.setdefault(rule + "/" + key, dict(rule=rule, key=rule + "/" + key, where=where, msg=msg))

    def und(self, rule, where, msg):
        self.unds.setdefault((rule, where, msg), dict(rule=rule, where=where, msg=msg))

    def judge(self, rule, good, key, where, msg, what=None):
        """good: True / False / None (undecided)."""
        if good is None:
            self.und(rule, where, msg)
        elif good:
            self.ok(rule, where, what)
        else:
            self.bad(rule, key, where, msg)

    def total(self):
        return sum(self.oks.values()) + len(self.bads) + len(self.unds)
