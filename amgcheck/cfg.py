"""Control flow graphs from the structured syntax trees."""
from .ir import walk, kids


class N:
    __slots__ = ("i", "kind", "ast", "succ", "pred", "depth", "ctl")

    def __init__(self, i, kind, ast=None):
        self.i, self.kind, self.ast, self.succ, self.pred = i, kind, ast, [], []
        self.ctl = ()

    def __repr__(self):
        return "N%d:%s@%s" % (self.i, self.kind, (self.ast or {}).get("l"))


class CFG:
    """kinds: entry exit throw stmt(var/expr) cond(True/False succ) switch range scope_end join lam_enter lam_exit
    Lambdas: a lambda handed to a call is inlined behind that call's argument evaluation as a body that runs zero or
    more times; a lambda bound to a local variable is inlined where that variable is called."""

    def __init__(self, body, inline_lambdas=True, inits=None, max_inline=6):
        self.nodes = []
        self.entry = self.new("entry")
        self.exit = self.new("exit")
        self.throw = self.new("throw")
        self.brk, self.cont, self.scopes = [], [], []
        self.lams = {}
        self.inl = inline_lambdas
        self.depth = 0
        self.max_inline = max_inline
        self.retstack = []
        self.ctlstack = []
        cur = self.entry
        for x in inits or []:
            if x.get("i"):
                cur = self.ev(cur, x["i"])
        cur = self.st(cur, body)
        if cur is not None:
            self.link(cur, self.exit)
        for n in self.nodes:
            for s, _ in n.succ:
                s.pred.append(n)

    def new(self, kind, ast=None):
        n = N(len(self.nodes), kind, ast)
        if hasattr(self, "ctlstack"):
            n.ctl = tuple(self.ctlstack)
        self.nodes.append(n)
        return n

    def link(self, a, b, lab=None):
        if a is not None:
            a.succ.append((b, lab))

    def then(self, cur, kind, ast=None):
        n = self.new(kind, ast)
        self.link(cur, n)
        return n

    # -- expressions: one node, plus inlined lambdas
    def ev(self, cur, e, kind="stmt"):
        if e is None:
            return cur
        if cur is None:
            return None
        if self.inl:
            cur = self.inline(cur, e)
            if cur is None:
                return None
        if e.get("k") == "throw":
            n = self.then(cur, "stmt", e)
            self.link(n, self.throw)
            return None
        return self.then(cur, kind, e)

    def inline(self, cur, e):
        """inline lambda bodies that this expression runs"""
        st = [e]
        lams, callsto = [], []
        while st:
            x = st.pop()
            if x.get("k") == "lam":
                lams.append(x)
                continue
            if x.get("k") == "op" and x.get("op") == "()" and x["a"] and x["a"][0].get("k") == "ref" and x["a"][0].get("id") in self.lams:
                callsto.append(x["a"][0]["id"])
            if x.get("k") in ("call", "ctor", "op"):
                for a in x.get("a", []):
                    if a.get("k") == "ref" and a.get("id") in self.lams and not (x.get("k") == "op" and x.get("op") == "()" and a is x["a"][0]):
                        callsto.append(a["id"])
            if x.get("k") == "op" and x.get("op") == "()" and x["a"] and x["a"][0].get("k") == "lam":
                pass
            ch = list(kids(x))
            ch.reverse()
            st.extend(ch)
        if self.depth >= self.max_inline:
            return cur
        for i in callsto:
            cur = self.lam_body(cur, self.lams[i], True)
            if cur is None:
                return None
        for l in lams:
            cur = self.lam_body(cur, l, True)
        return cur

    def lam_body(self, cur, l, maybe):
        bodies = [(x["ps"], x["b"]) for x in l.get("insts", [])] or ([(l["ps"], l["b"])] if l.get("b") else [])
        if not bodies:
            return cur
        self.depth += 1
        sv = (self.brk, self.cont, self.scopes)
        self.brk, self.cont, self.scopes = [], [], []
        head = self.then(cur, "lam_enter", l)
        out = self.new("lam_exit", l)
        for ps, b in bodies:
            self.ctlstack.append(head)
            self.retstack.append((out, 0))
            c = self.st(head, b)
            self.retstack.pop()
            self.ctlstack.pop()
            if c is not None:
                self.link(c, out)
        self.brk, self.cont, self.scopes = sv
        self.depth -= 1
        if maybe:
            self.link(head, out, "skip")
            self.link(out, head, "again")
        nxt = self.new("join")
        self.link(out, nxt)
        return nxt

    def close(self, cur, upto):
        for sc in reversed(self.scopes[upto:]):
            if sc:
                cur = self.then(cur, "scope_end", {"k": "scope", "vars": list(sc)})
        return cur

    def st(self, cur, s):
        if s is None or cur is None:
            return cur
        k = s["k"]
        if k == "{":
            self.scopes.append([])
            for x in s["b"]:
                if cur is None:
                    # unreachable remainder is dropped
                    break
                cur = self.st(cur, x)
            sc = self.scopes.pop()
            if cur is not None and sc:
                cur = self.then(cur, "scope_end", {"k": "scope", "vars": sc})
            return cur
        if k == "null":
            return cur
        if k == "decl":
            for v in s["d"]:
                i = v.get("i")
                if i is not None and i["k"] == "lam":
                    self.lams[v["id"]] = i
                    cur = self.then(cur, "stmt", v)
                else:
                    if i is not None and self.inl:
                        cur = self.inline(cur, i)
                        if cur is None:
                            return None
                    cur = self.then(cur, "stmt", v)
                if self.scopes:
                    self.scopes[-1].append(v)
            return cur
        if k == "if":
            self.scopes.append([])
            cur = self.st(cur, s.get("init"))
            if s.get("cv"):
                v = s["cv"]
                cur = self.then(cur, "stmt", v)
                self.scopes[-1].append(v)
            if s.get("cx"):
                if "cv1" in s:
                    br = s["th"] if s["cv1"] else s["el"]
                    cur = self.st(cur, br)
                    self.scopes.pop()
                    return cur
            c = s["c"]
            if self.inl:
                cur = self.inline(cur, c)
            if cur is None:
                self.scopes.pop()
                return None
            cn = self.then(cur, "cond", c)
            j = self.new("join")
            self.ctlstack.append((cn, True))
            t = self.new("join")
            self.link(cn, t, True)
            a = self.st(t, s["th"])
            self.ctlstack.pop()
            self.ctlstack.append((cn, False))
            t2 = self.new("join")
            self.link(cn, t2, False)
            b = self.st(t2, s["el"]) if s.get("el") else t2
            self.ctlstack.pop()
            self.link(a, j)
            self.link(b, j)
            sc = self.scopes.pop()
            if a is None and b is None:
                return None
            if sc:
                return self.then(j, "scope_end", {"k": "scope", "vars": sc})
            return j
        if k in ("for", "while", "do", "rfor"):
            self.scopes.append([])
            if k == "for":
                i = s.get("i")
                if i is not None:
                    cur = self.st(cur, i) if i["k"] == "decl" else self.ev(cur, i)
            if k == "rfor":
                cur = self.ev(cur, s["r"])
            if cur is None:
                self.scopes.pop()
                return None
            out = self.new("join")
            if k == "do":
                top = self.then(cur, "join")
                cont = self.new("join")
                self.brk.append((out, len(self.scopes)))
                self.cont.append((cont, len(self.scopes)))
                b = self.st(top, s["b"])
                self.brk.pop()
                self.cont.pop()
                self.link(b, cont)
                if not (b is None and not self._has_pred(cont)):
                    c2 = self.inline(cont, s["c"]) if self.inl else cont
                    cn = self.then(c2, "cond", s["c"])
                    self.link(cn, top, True)
                    self.link(cn, out, False)
            else:
                top = self.then(cur, "join")
                c = s.get("c")
                if k == "rfor":
                    cn = self.then(top, "range", s)
                    lt, lf = True, False
                elif c is not None:
                    c2 = self.inline(top, c) if self.inl else top
                    cn = self.then(c2, "cond", c)
                    lt, lf = True, False
                else:
                    cn = self.then(top, "join")
                    lt, lf = True, None
                body = self.new("join")
                self.ctlstack.append((cn, True))
                self.link(cn, body, lt)
                if lf is not None:
                    self.link(cn, out, lf)
                cont = self.new("join")
                self.brk.append((out, len(self.scopes)))
                self.cont.append((cont, len(self.scopes)))
                cur2 = body
                if k == "rfor":
                    cur2 = self.then(cur2, "stmt", dict(s["v"], rng=1))
                b = self.st(cur2, s["b"])
                self.brk.pop()
                self.cont.pop()
                self.link(b, cont)
                c3 = cont
                if k == "for" and s.get("n") is not None:
                    c3 = self.ev(cont, s["n"])
                self.ctlstack.pop()
                self.link(c3, top)
            sc = self.scopes.pop()
            if not self._has_pred(out):
                return None
            if sc:
                return self.then(out, "scope_end", {"k": "scope", "vars": sc})
            return out
        if k == "sw":
            cur = self.inline(cur, s["c"]) if self.inl else cur
            sw = self.then(cur, "switch", s["c"])
            out = self.new("join")
            self.brk.append((out, len(self.scopes)))
            self.scopes.append([])
            self.ctlstack.append((sw, None))
            c = None
            hasdef = [False]

            def item(c, x):
                while x is not None and x["k"] in ("case", "default"):
                    l = self.new("join")
                    self.link(c, l)
                    self.link(sw, l, ("case", x["v"]) if x["k"] == "case" else ("default",))
                    if x["k"] == "default":
                        hasdef[0] = True
                    c = l
                    x = x["b"]
                return self.st(c, x) if c is not None else None
            body = s["b"]
            for x in (body["b"] if body["k"] == "{" else [body]):
                c = item(c, x)
            self.ctlstack.pop()
            self.scopes.pop()
            self.brk.pop()
            self.link(c, out)
            if not hasdef[0]:
                self.link(sw, out, ("nocase",))
            if not self._has_pred(out):
                return None
            return out
        if k == "ret":
            if s.get("e") is not None:
                if self.inl:
                    cur = self.inline(cur, s["e"])
                    if cur is None:
                        return None
            cur = self.then(cur, "ret", s)
            if self.retstack:
                tgt, base = self.retstack[-1]
                cur = self.close(cur, base)
                self.link(cur, tgt)
            else:
                cur = self.close(cur, 0)
                self.link(cur, self.exit)
            return None
        if k == "brk":
            if self.brk:
                tgt, d = self.brk[-1]
                cur = self.close(cur, d)
                self.link(cur, tgt)
            return None
        if k == "cont":
            if self.cont:
                tgt, d = self.cont[-1]
                cur = self.close(cur, d)
                self.link(cur, tgt)
            return None
        if k == "try":
            a = self.st(cur, s["b"])
            j = self.new("join")
            self.link(a, j)
            for h in s["h"]:
                b = self.st(cur, h)
                self.link(b, j)
            return j
        if k in ("case", "default"):
            return self.st(cur, s["b"])
        if k == "?stmt":
            for x in s["b"]:
                cur = self.st(cur, x)
            return cur
        return self.ev(cur, s)

    def _has_pred(self, n):
        return any(s is n for x in self.nodes for s, _ in x.succ)


def solve(cfg, init, transfer, join, bottom=None, edge=None, limit=200000):
    """forward dataflow; transfer(node, state)->state; join(a,b); edge(node,label,state)->state or None(infeasible)"""
    state = {cfg.entry.i: init}
    work = [cfg.entry]
    inq = {cfg.entry.i}
    it = 0
    outs = {}
    while work:
        n = work.pop(0)
        inq.discard(n.i)
        it += 1
        if it > limit:
            from .facts import AnalysisError
            raise AnalysisError("dataflow did not converge")
        o = transfer(n, state[n.i])
        outs[n.i] = o
        for s, lab in n.succ:
            os = o
            if edge is not None:
                os = edge(n, lab, o)
                if os is None:
                    continue
            if s.i not in state:
                state[s.i] = os
                ch = True
            else:
                ns = join(state[s.i], os)
                ch = ns != state[s.i]
                if ch:
                    state[s.i] = ns
            if ch and s.i not in inq:
                inq.add(s.i)
                work.append(s)
    return state, outs
