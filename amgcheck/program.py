"""The merged, resolved program."""
import json, os
from . import facts
from .facts import AnalysisError


class Fn:
    __slots__ = ("key", "name", "file", "_raw", "_j", "tu")

    def __init__(self, key, name, file, raw, tu):
        self.key, self.name, self.file, self._raw, self._j, self.tu = key, name, file, raw, None, tu

    @property
    def j(self):
        if self._j is None:
            self._j = json.loads(self._raw)
        return self._j

    def raw(self):
        return self._raw

    @property
    def short(self):
        return self.name.rsplit("::", 1)[-1]

    @property
    def line(self):
        return self.j["l"]

    def ty(self, i):
        return self.j["T"][i] if i is not None and i >= 0 else ""

    def where(self, node=None):
        l = node.get("l") if isinstance(node, dict) else node
        return "src/%s:%s" % (self.file, l if l else self.j["l"])

    def __repr__(self):
        return "<Fn %s>" % self.name


class Program:
    def __init__(self, verbose=False):
        files, self.n_extracted = facts.extract(verbose)
        self.tus = sorted(files)
        self.fns, self.decls, self.recs, self.enums, self.vars = {}, {}, {}, {}, {}
        for tu in self.tus:
            with open(files[tu], encoding="ascii") as f:
                for l in f:
                    c = l[0]
                    if c == "F":
                        _, key, name, file, raw = l.split("\t", 4)
                        if key not in self.fns:
                            self.fns[key] = Fn(key, name, file, raw, tu)
                    elif c == "D":
                        _, key, raw = l.split("\t", 2)
                        o = self.decls.get(key)
                        if o is None:
                            self.decls[key] = raw
                    elif c == "C":
                        _, key, raw = l.split("\t", 2)
                        if key not in self.recs:
                            self.recs[key] = raw
                    elif c == "E":
                        _, key, raw = l.split("\t", 2)
                        self.enums.setdefault(key, raw)
                    elif c == "V":
                        _, key, raw = l.split("\t", 2)
                        self.vars.setdefault(key, raw)
        if len(self.tus) < 60 or len(self.fns) < 3000:
            raise AnalysisError("only %d translation units / %d functions were parsed" % (len(self.tus), len(self.fns)))
        self._rec, self._dec = {}, {}

    def rec(self, name):
        r = self._rec.get(name)
        if r is None:
            raw = self.recs.get(name)
            if raw is None:
                return None
            r = self._rec[name] = json.loads(raw)
        return r

    def decl(self, key):
        r = self._dec.get(key)
        if r is None:
            raw = self.decls.get(key)
            if raw is None:
                return None
            r = self._dec[key] = json.loads(raw)
        return r

    def _enums(self):
        if not hasattr(self, "_en"):
            self._en = {}
            for raw in self.enums.values():
                e = json.loads(raw)
                self._en[e["t"]] = e
        return self._en

    def is_enum(self, t):
        return t.replace("const ", "") in self._enums()

    def enum_values(self, t):
        e = self._enums().get(t.replace("const ", ""))
        return [v for _, v in e["v"]] if e else None
