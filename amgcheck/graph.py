"""call graph (virtual dispatch resolved over the whole program) and control dependence"""
import re
from .ir import walk, calls
from .cfg import CFG


class CallGraph:
    def __init__(self, P):
        self.P = P
        self.over = {}          # base method key -> overriding keys (transitive)
        direct = {}
        for k in P.decls:
            d = P.decl(k)
            for b in d.get("over") or []:
                direct.setdefault(b, set()).add(k)
        for b in direct:
            seen, st = set(), [b]
            while st:
                for o in direct.get(st.pop(), ()):
                    if o not in seen:
                        seen.add(o)
                        st.append(o)
            self.over[b] = seen
        self._out = {}
        self.made = 0
        self.makes()

    def makes(self):
        """make_shared<T>(...) runs a constructor of T"""
        ctors = {}
        for k in self.P.fns:
            f = self.P.fns[k]
            if f.j.get("ctor") and not f.j.get("dep") and f.j.get("rec"):
                ctors.setdefault(f.j["rec"].replace(" ", ""), []).append(f)
        for f in self.P.fns.values():
            if f.j.get("dep") or "make_shared" not in f.raw() and "make_unique" not in f.raw():
                continue
            for part in [f.j.get("b")] + [i.get("i") for i in f.j.get("inits", []) if i]:
                for c in calls(part) if part else ():
                    if c.get("f", "").rsplit("::", 1)[-1] in ("make_shared", "make_unique"):
                        t = re.match(r"std::(?:shared|unique)_ptr<(.*)>$", f.ty(c.get("t")))
                        if not t:
                            continue
                        t = t.group(1).strip()
                        c["mkt"] = t
                        n = len(c.get("a", []))
                        ks = tuple(g.key for g in ctors.get(t.replace(" ", ""), ()) if len(g.j.get("ps", [])) >= n)
                        if ks:
                            c["mk"] = ks
                            self.made += 1

    def targets(self, c):
        """possible callees (keys with or without body) of a call node"""
        if c.get("mk"):
            return c["mk"]
        m = c.get("m")
        if not m:
            return ()
        if c.get("v"):
            return (m,) + tuple(self.over.get(m, ()))
        return (m,)

    def callees(self, fn):
        r = self._out.get(fn.key)
        if r is None:
            r = set()
            j = fn.j
            for part in [j.get("b")] + [i.get("i") for i in j.get("inits", [])]:
                if part:
                    for c in calls(part):
                        r.update(self.targets(c))
            self._out[fn.key] = r
        return r

    def reach_back(self, seeds):
        """functions that (transitively) may call a function for which seed holds"""
        callers = {}
        for f in self.P.fns.values():
            if f.j.get("dep"):
                continue
            for m in self.callees(f):
                callers.setdefault(m, set()).add(f.key)
        seen, st = set(seeds), list(seeds)
        while st:
            for c in callers.get(st.pop(), ()):
                if c not in seen:
                    seen.add(c)
                    st.append(c)
        return seen


def postdom(cfg, dead=()):
    """post-dominator bit sets over nodes that can reach the normal exit; None for others"""
    nodes = cfg.nodes
    n = len(nodes)
    # nodes that can reach exit
    ok = [False] * n
    st = [cfg.exit]
    ok[cfg.exit.i] = True
    while st:
        x = st.pop()
        for p in x.pred:
            if not ok[p.i] and p.i not in dead:
                ok[p.i] = True
                st.append(p)
    full = (1 << n) - 1
    pd = [full if ok[i] else None for i in range(n)]
    pd[cfg.exit.i] = 1 << cfg.exit.i
    # reverse topological-ish order
    order, seen = [], set()
    st = [(cfg.exit, iter(cfg.exit.pred))]
    seen.add(cfg.exit.i)
    order.append(cfg.exit)
    wl = [cfg.exit]
    while wl:
        x = wl.pop(0)
        for p in x.pred:
            if p.i not in seen and ok[p.i]:
                seen.add(p.i)
                order.append(p)
                wl.append(p)
    ch = True
    while ch:
        ch = False
        for x in order:
            if x is cfg.exit:
                continue
            s = full
            for y, lab in x.succ:
                if pd[y.i] is not None:
                    s &= pd[y.i]
            s |= 1 << x.i
            if s != pd[x.i]:
                pd[x.i] = s
                ch = True
    return pd


def control_deps(cfg, pd):
    """map node index -> set of (cond node index, label) it is directly control dependent on"""
    dep = {}
    for c in cfg.nodes:
        if len(c.succ) < 2 or pd[c.i] is None:
            continue
        live = [(s, l) for s, l in c.succ if pd[s.i] is not None]
        if len(live) < 2:
            continue
        for s, lab in live:
            # nodes postdominating s but not strictly postdominating c
            x = pd[s.i] & ~(pd[c.i] & ~(1 << c.i))
            i = 0
            while x:
                low = x & -x
                dep.setdefault(low.bit_length() - 1, set()).add((c.i, lab if not isinstance(lab, tuple) else str(lab)))
                x ^= low
    return dep


def all_deps(cfg, dep, i):
    """transitively, the branch nodes whose outcome decides whether node i runs"""
    seen, st = set(), [i]
    out = set()
    while st:
        x = st.pop()
        for c, lab in dep.get(x, ()):
            if c not in out:
                out.add(c)
                st.append(c)
    return [cfg.nodes[c] for c in sorted(out)]
