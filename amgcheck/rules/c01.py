"""C01: every non-blocking message is completed, and its buffer is left alone until then.
Path-sensitive typestate of every request holder (local, member, structured binding): pending after a request flows in,
done after a wait on the whole holder, handed over by return.  Buffers are tracked to the variable that owns the memory."""
import re
from ..ir import walk, kids, strip, cname, calls
from ..cfg import CFG, solve
from ..graph import CallGraph, postdom
from ..show import show

REQ = re.compile(r'NG_MPI_Request')
VIEW = re.compile(r'(^|[ :])(FlatArray|FlatTable|FlatVector|FlatMatrix|IntRange|T_Range|BareSliceVector|SliceVector)\b|&|\*( const)?$')
SCALAR = re.compile(r'^(const )?(unsigned |signed )?(bool|char|short|int|long|size_t|float|double|long long)( int| long)?$')
NBC = {'ISend': 's', 'IRecv': 'r', 'Isend': 's', 'Irecv': 'r', 'NG_MPI_Isend': 's', 'NG_MPI_Irecv': 'r'}
WAITS = {'MyMPI_WaitAll', 'NG_MPI_Waitall', 'NG_MPI_Wait', 'NG_MPI_Waitany', 'NG_MPI_Waitsome', 'NG_MPI_Test', 'NG_MPI_Testall'}
MUT = {'SetSize', 'SetSize0', 'SetAllocSize', 'DeleteAll', 'Append', 'Assign', 'Swap', 'DeleteElement', 'DeleteLast', 'operator=', 'Insert', 'clear', 'resize'}
OKUSE = {'Size', 'AllocSize', 'Height', 'Width', 'Range'}


class An:
    def __init__(self, P, G, fn, summ):
        self.P, self.G, self.fn, self.summ = P, G, fn, summ
        self.decl = {}
        for x in walk(fn.j['b']):
            if x.get('k') in ('var',) and 'id' in x:
                self.decl[x['id']] = x
            for b in x.get('bs', []) if isinstance(x.get('bs'), list) else []:
                if isinstance(b, dict) and 'id' in b:
                    self.decl[b['id']] = dict(b, hold=x)
        self.params = {p['id']: i for i, p in enumerate(fn.j.get('ps', [])) if isinstance(p, dict) and 'id' in p}

    def ty(self, e):
        return self.fn.ty(e.get('t'))

    # -- which variable holds requests
    def holder(self, e):
        e = strip(e)
        while e is not None:
            k = e['k']
            if k == 'ref':
                v = self.decl.get(e.get('id'))
                if v is not None and v.get('i') is not None and VIEW.search(self.fn.ty(v['t'])):
                    i = strip(v['i'])
                    if REQ.search(self.fn.ty(v['t'])) and i['k'] not in ('lam',):
                        if i['k'] == 'call' and cname(i) in ('Part', 'Range') or i['k'] in ('un', 'ref', 'op', 'sub', 'mem'):
                            b = self.holder(i)
                            if b is not None:
                                return (b[0], e['id'])
                return (e.get('id'), None)
            if k == 'mem':
                if e['o'] is not None and e['o']['k'] == 'this':
                    return ('this.' + e['n'], None)
                e = e['o']
            elif k == 'sub':
                e = e['o']
            elif k == 'op' and e['op'] in ('[]', '()', '*') and e['a']:
                e = e['a'][0]
            elif k == 'un' and e['op'] in ('&', '*'):
                e = e['e']
            elif k == 'call' and e.get('o') is not None and cname(e) in ('Part', 'Range', 'Data', 'Addr'):
                b = self.holder(e['o'])
                return (b[0], 'part') if b and cname(e) in ('Part', 'Range') else b
            elif k == 'cast':
                e = e['e']
            elif k == 'ctor' and len(e['a']) == 1:
                e = e['a'][0]
            else:
                return None
        return None

    def ptrlike(self, a):
        a = strip(a)
        return a['k'] == 'un' and a['op'] == '&' or bool(VIEW.search(self.ty(a)))

    # -- which variable owns the memory
    def root(self, e, d=0):
        e = strip(e)
        if e is None or d > 12:
            return None
        k = e['k']
        if k == 'ref':
            v = self.decl.get(e.get('id'))
            if v is None:
                return ('param', self.params[e['id']]) if e.get('id') in self.params else None
            if v.get('hold') is not None:
                return e['id']
            if v.get('rng'):
                return None
            if v.get('i') is not None and VIEW.search(self.fn.ty(v['t'])):
                return self.root(v['i'], d + 1)
            return e['id']
        if k == 'mem':
            return self.root(e['o'], d + 1) if e['o'] is not None and e['o']['k'] != 'this' else None
        if k == 'sub':
            return self.root(e['o'], d + 1)
        if k == 'op' and e['op'] in ('[]', '()') and e['a']:
            return self.root(e['a'][0], d + 1)
        if (k == 'op' and e['op'] in ('*', '->') and e['a']):
            r = self.root(e['a'][0], d + 1)
            return ('heap', r) if r is not None else None
        if k == 'un':
            r = self.root(e['e'], d + 1)
            return ('heap', r) if e['op'] == '*' and r is not None else r
        if k == 'call' and e.get('o') is not None:
            return self.root(e['o'], d + 1)
        if k == 'ctor':
            args = sorted(e['a'], key=lambda a: 0 if self.ptrlike(a) else 1)
            for a in args:
                if self.ptrlike(a) or strip(a)['k'] == 'ref' and not SCALAR.match(self.ty(strip(a))):
                    r = self.root(a, d + 1)
                    if r is not None:
                        return r
            return None
        if k == 'cast':
            return self.root(e['e'], d + 1)
        return None

    # -- events
    def source(self, c):
        """(dir, buffer expressions) if this call starts non-blocking messages and yields / stores their requests"""
        q = c.get('f', '')
        n = cname(c)
        if c['k'] == 'call' and n in NBC and ('Comm' in q or q.startswith('NG_MPI') or 'NG_MPI' in n):
            return NBC[n], [c['a'][0]] if c.get('a') else []
        if c['k'] == 'call' and REQ.search(self.ty(c)) and c.get('m') in self.P.fns and 'FlatArray' not in n:
            s = self.summ(c['m'])
            if s is not None:
                return 'b', [c['a'][i] for i in s if i < len(c['a'])]
        return None

    def events(self, e, out, dest=None, res=False):
        """dest: holder the value of e flows into; res: value is used by a parent that will deal with it"""
        if e is None or e.get('k') == 'lam':
            return
        k = e['k']
        if k == 'ret':
            if e.get('e') is not None:
                self.events(e['e'], out, 'ret')
                h = [self.holder(x) for x in ([e['e']] + (list(strip(e['e']).get('a', [])) if strip(e['e'])['k'] in ('call', 'ctor') else [])) if x is not None]
                for x in h:
                    if x:
                        out.append(('escape', x[0], e))
            return
        if k == 'var':
            if e.get('i') is not None:
                isreq = REQ.search(self.fn.ty(e['t'])) or e.get('bs')
                i = strip(e['i'])
                if isreq and not VIEW.search(self.fn.ty(e['t'])):
                    self.events(e['i'], out, (e['id'], None))
                    hh = self.holder(i)
                    if hh and i['k'] in ('ref',):
                        out.append(('xfer', hh[0], (e['id'], None), e))
                else:
                    self.events(e['i'], out)
            return
        if (k == 'bin' and e['op'] == '=') or (k == 'op' and e['op'] in ('=', '+=') and len(e['a']) == 2):
            a, b = (e['a'], e['b']) if k == 'bin' else e['a']
            h = self.holder(a) if REQ.search(self.ty(a)) else None
            t0 = len(out)
            self.events(b, out, h)
            if h and h[1] is None and e['op'] == '=' and strip(a)['k'] in ('ref', 'mem') and not VIEW.search(self.ty(strip(a)).replace('&', '')):
                out.insert(t0, ('reset', h, e))
            bs = strip(b)
            if h and bs['k'] == 'ref':
                hb = self.holder(bs)
                if hb and hb[0] != h[0]:
                    out.append(('xfer', hb[0], h, e))
            if h is None:
                self.use(a, out, 'w')
            return
        if k in ('call', 'ctor', 'op'):
            n = cname(e)
            s = self.source(e)
            if s:
                for x in kids(e):
                    if x is not None and not any(x is y for y in s[1]):
                        self.events(x, out, None, True)
                if n.startswith('NG_MPI_I'):
                    h = self.holder(e['a'][-1])
                    out.append(('start', h, s[0], [self.root(x) for x in s[1]], e))
                else:
                    out.append(('start', dest, s[0], [self.root(x) for x in s[1]], e))
                return
            if n in WAITS:
                for a in e['a']:
                    x = strip(a)
                    if REQ.search(self.ty(a)) or x['k'] == 'un' and x['op'] == '&' and REQ.search(self.ty(x['e'])):
                        h = self.holder(a)
                        if h:
                            out.append(('wait', h, e, n))
                return
            if n == 'NG_MPI_Request_free':
                h = self.holder(e['a'][0])
                if h:
                    out.append(('free', h, e))
                return
            o = e.get('o') if k == 'call' else (e['a'][0] if k == 'op' and e['a'] else None)
            if k == 'call' and o is not None and n in ('Append', 'operator+=') and REQ.search(self.ty(o)):
                h = self.holder(o)
                for a in e['a']:
                    self.events(a, out, h)
                    x = strip(a)
                    if x['k'] == 'ref' and REQ.search(self.ty(x)):
                        hh = self.holder(x)
                        if hh:
                            out.append(('xfer', hh[0], h, e))
                return
            if k == 'ctor' and len(e['a']) == 1 and REQ.search(self.ty(e)):
                self.events(e['a'][0], out, dest)
                return
            if k == 'call' and n in ('move', 'make_tuple', 'forward', 'tuple'):
                for a in e['a']:
                    self.events(a, out, dest)
                    if dest == 'ret':
                        h = self.holder(a)
                        if h:
                            out.append(('escape', h[0], e))
                return
            if k == 'ctor' and dest is not None:
                for a in e['a']:
                    self.events(a, out, dest)
                    if dest == 'ret':
                        h = self.holder(a)
                        if h:
                            out.append(('escape', h[0], e))
                return
            if k == 'call' and o is not None and n in MUT:
                r = self.root(o)
                if r is not None and strip(o)['k'] == 'ref':
                    out.append(('mut', r, e))
                else:
                    self.use(o, out, 'w')
                for a in e['a']:
                    self.events(a, out)
                return
            if k == 'call' and o is not None and n in OKUSE:
                for a in e['a']:
                    self.events(a, out)
                return
            for x in kids(e):
                self.events(x, out)
            return
        if k == 'del':
            r = self.root(e['e'] if isinstance(e.get('e'), dict) else None)
            if r is not None:
                out.append(('del', r, e))
            return
        if k == 'ref':
            self.use(e, out, 'r')
            return
        if k == 'cond':
            self.events(e['c'], out)
            self.events(e['a'], out, dest)
            self.events(e['b'], out, dest)
            return
        if k in ('cast', 'darg', 'dinit', 'ilist'):
            for x in kids(e):
                self.events(x, out, dest)
            return
        for x in kids(e):
            self.events(x, out)

    def use(self, e, out, rw):
        r = self.root(e)
        if r is not None:
            out.append(('use', r, rw, e))
        e = strip(e)
        if e['k'] == 'op':
            for a in e['a'][1:]:
                self.events(a, out)
        elif e['k'] == 'sub':
            self.events(e['i'], out)


def run(P, R):
    G = CallGraph(P)
    memo = {}

    def summ(key):
        """indices of parameters handed to non-blocking operations whose requests the function returns (None: returns none)"""
        if key in memo:
            return memo[key]
        memo[key] = None
        f = P.fns.get(key)
        if f is None or not re.search(r'NG_MPI_Request', f.ty(f.j.get('ret')) if isinstance(f.j.get('ret'), int) else str(f.j.get('ret'))):
            return None
        a = An(P, G, f, summ)
        idx = set()
        for x in walk(f.j['b']):
            if x.get('k') == 'call':
                s = a.source(x)
                if s:
                    for b in s[1]:
                        r = a.root(b)
                        while isinstance(r, tuple) and r[0] == 'heap':
                            r = r[1]
                        if isinstance(r, tuple) and r[0] == 'param':
                            idx.add(r[1])
        memo[key] = sorted(idx)
        return memo[key]

    nstart = nwait = nfun = 0
    for f in sorted(P.fns.values(), key=lambda f: (f.file, f.name)):
        raw = f.raw()
        if 'NG_MPI_Request' not in raw and 'ISend' not in raw and 'IRecv' not in raw:
            continue
        if f.j.get('dep') or re.search(r'mpiwrap_extension', f.file) and f.short in ('ISend',) and False:
            continue
        a = An(P, G, f, summ)
        if not any(x.get('k') == 'call' and a.source(x) for x in walk(f.j['b'])):
            continue
        nfun += 1
        cfg = CFG(f.j['b'], inits=f.j.get('inits'))
        base = re.sub(r'<.*>', '', f.name)
        loops = loopset(cfg)
        viol = {}
        cnt = [0, 0]

        def rep(kind, node, key, text):
            viol.setdefault((kind, key), (node, text))
        names = {i: v['n'] for i, v in a.decl.items() if 'n' in v}

        def nm(h):
            while isinstance(h, tuple):
                h = h[1]
            return names.get(h, str(h))

        def events(n):
            out = []
            if n.kind == 'ret':
                a.events(n.ast, out)
            else:
                a.events(n.ast, out)
            return out
        evc = {}
        clear_on_false = {}
        for n in cfg.nodes:
            if n.ast is None or n.kind in ('scope_end', 'lam_enter', 'lam_exit', 'range'):
                continue
            evc[n.i] = events(n)

        def guards(n):
            out = set()
            for c in n.ctl:
                c, lab = c if isinstance(c, tuple) else (c, None)
                if c.kind == 'cond' and c.i not in loops:
                    out.add((show(c.ast), lab))
            return out

        def every_round(head, wn, holder):
            """the wait is reached in every round of the loop in which a message may have been started"""
            ws = {m.i for m in cfg.nodes for ev in evc.get(m.i, ()) if ev[0] == 'wait' and ev[1][0] == holder}
            seen, st = set(), [t for t, lab in head.succ if lab is not False]
            skip = False
            while st:
                m = st.pop()
                if m is head:
                    skip = True
                    break
                if m.i in seen or m.i in ws:
                    continue
                seen.add(m.i)
                st.extend(t for t, _ in m.succ)
            if not skip:
                return True
            g = guards(wn) - guards(head)
            starts = [m for m in cfg.nodes for ev in evc.get(m.i, ()) if ev[0] == 'start' and isinstance(ev[1], tuple) and ev[1][0] == holder]
            return bool(starts) and all(g <= guards(m) for m in starts)
        for n in cfg.nodes:
            if n.i not in evc:
                continue
            for ev in evc[n.i]:
                if ev[0] == 'wait' and ev[3] in ('NG_MPI_Waitany', 'NG_MPI_Waitsome', 'NG_MPI_Wait'):
                    for c in n.ctl:
                        c = c[0] if isinstance(c, tuple) else c
                        if c.i in loops and (ev[3] != 'NG_MPI_Wait' or every_round(c, n, ev[1][0])):
                            clear_on_false.setdefault(c.i, set()).add(ev[1][0])
            if n.kind == 'cond':
                e = n.ast
                x = e
                if x['k'] == 'bin' and x['op'] in ('>', '!=') and x['b'].get('v') in ('0', 0):
                    x = x['a']
                if x['k'] == 'call' and cname(x) == 'Size' and x.get('o') is not None and REQ.search(a.ty(x['o'])):
                    h = a.holder(x['o'])
                    if h:
                        clear_on_false.setdefault(n.i, set()).add(h[0])

        slots(a, f, cfg, loops, evc, rep, nm)
        waitany(a, f, cfg, loops, evc, rep, nm)

        # state: frozenset of (holder, sub, dir, root, start node index)
        def tr(n, s):
            if n.kind == 'scope_end':
                ids = set(v['id'] for v in n.ast['vars'])
                for h, sub, d, r, sn in s:
                    if h in ids:
                        rep('incomplete', cfg.nodes[sn].ast, nm(h), "request in '%s' is not waited for on every path before '%s' goes out of scope" % (nm(h), nm(h)))
                    elif r in ids:
                        rep('lifetime', cfg.nodes[sn].ast, nm(r), "buffer '%s' goes out of scope while the message started with it may still be in flight" % nm(r))
                return frozenset(x for x in s if x[0] not in ids and x[3] not in ids)
            for ev in evc.get(n.i, ()):
                if ev[0] == 'start':
                    _, h, d, roots, e = ev
                    if h is None:
                        rep('discarded', e, cname(e), "the request returned by %s is discarded, the message is never completed" % cname(e))
                    elif h == 'ret':
                        for r in roots:
                            if r is not None and not (isinstance(r, tuple)) and r in a.decl:
                                rep('lifetime', e, nm(r), "the returned request refers to local buffer '%s'" % nm(r))
                    else:
                        v = a.decl.get(h[0]) if not isinstance(h[0], str) else None
                        if v is not None and 't' in v and re.fullmatch(r'(struct |ngcore::)*NG_MPI_Request', f.ty(v['t'])):
                            if any(x[0] == h[0] for x in s):
                                rep('overwritten', e, nm(h[0]), "the request in '%s' is replaced by that of the next message before it is waited for" % nm(h[0]))
                        for r in roots or [None]:
                            s = s | {(h[0], h[1], d, r, n.i)}
                        if not roots:
                            s = s | {(h[0], h[1], d, None, n.i)}
                elif ev[0] == 'reset':
                    if any(x[0] == ev[1][0] for x in s):
                        rep('overwritten', ev[2], nm(ev[1][0]), "'%s' is assigned anew while it holds the request of a message that was not waited for" % nm(ev[1][0]))
                elif ev[0] == 'wait':
                    h = ev[1]
                    s = frozenset(x for x in s if not (x[0] == h[0] and (h[1] is None or x[1] == h[1] or ev[3] in ('NG_MPI_Waitany', 'NG_MPI_Waitsome') or ev[3] == 'NG_MPI_Wait' and h[1] != 'part')))
                elif ev[0] == 'free':
                    keep = set()
                    for x in s:
                        if x[0] == ev[1][0]:
                            keep.add(('freed@%d' % n.i, None, x[2], x[3], x[4]))
                        else:
                            keep.add(x)
                    s = frozenset(keep)
                elif ev[0] == 'escape':
                    for x in s:
                        if x[0] == ev[1] and x[3] is not None and not isinstance(x[3], tuple) and x[3] in a.decl:
                            rep('lifetime', cfg.nodes[x[4]].ast, nm(x[3]), "requests returned from here refer to local buffer '%s'" % nm(x[3]))
                    s = frozenset(x for x in s if x[0] != ev[1])
                elif ev[0] == 'xfer':
                    h = ev[2]
                    s = frozenset((h[0], h[1]) + x[2:] if x[0] == ev[1] else x for x in s)
                elif ev[0] in ('mut', 'del'):
                    for x in s:
                        if x[3] == ev[1] or (ev[0] == 'del' and x[3] == ('heap', ev[1])):
                            if ev[0] == 'mut' and common(cfg, loops, cfg.nodes[x[4]], n):
                                continue
                            rep('touched', ev[2], nm(ev[1]), "buffer '%s' is %s while a message started with it may still be in flight" % (nm(ev[1]), 'deleted' if ev[0] == 'del' else 'resized or replaced'))
                elif ev[0] == 'use':
                    for x in s:
                        if x[3] is not None and x[3] == ev[1] and not common(cfg, loops, cfg.nodes[x[4]], n):
                            if other_row(cfg.nodes[x[4]].ast, ev[3], ev[1], a):
                                continue
                            if x[2] in 'rb' or ev[2] == 'w':
                                rep('touched', ev[3], nm(ev[1]), "buffer '%s' is %s before the message started with it is complete" % (nm(ev[1]), 'written' if ev[2] == 'w' else 'read'))
            return s

        def edge(n, lab, s):
            if n.i in clear_on_false and lab is False:
                c = clear_on_false[n.i]
                return frozenset(x for x in s if x[0] not in c)
            return s
        ins, outs = solve(cfg, frozenset(), tr, lambda x, y: x | y, edge=edge)
        for h, sub, d, r, sn in ins.get(cfg.exit.i, ()):
            if isinstance(h, str) and h.startswith('this.'):
                rep('incomplete', cfg.nodes[sn].ast, h, "request in member %s is still pending when %s returns" % (h[5:], f.short))
        for n in cfg.nodes:
            for ev in evc.get(n.i, ()):
                if ev[0] == 'start':
                    nstart += 1
                    R.ok("%s: message %s in %s tracked" % (f.where(ev[4]), show(ev[4]), f.short))
                elif ev[0] == 'wait':
                    nwait += 1
        for (kind, key), (node, text) in viol.items():
            R.violation("%s:%s:%s" % (kind, base, key), f.where(node), "%s: %s" % (f.short, text))
    R.need("functions that start non-blocking messages", nfun, 60)
    R.need("non-blocking message starts (instantiated)", nstart, 150)
    R.need("waits", nwait, 60)
    persistent(P, R, G)
    R.expl.append("Typestate of request holders and ownership roots of message buffers over all CFG paths of every function that starts "
                  "non-blocking messages; persistent requests: class-level pairing of start / wait / buffer access.")


def idxs(e):
    """index expressions of the slot an expression names"""
    out = []
    e = strip(e)
    while e is not None:
        k = e['k']
        if k == 'sub':
            out.append(e['i'])
            e = e['o']
        elif k == 'op' and e['op'] in ('[]', '()') and e['a']:
            out += e['a'][1:]
            e = e['a'][0]
        elif k in ('un', 'cast'):
            e = e['e']
        elif k == 'mem':
            e = e['o']
        elif k == 'call' and e.get('o') is not None:
            out += e['a']
            e = e['o']
        else:
            break
        e = strip(e) if e is not None else None
    return out


def changes(n, ids):
    """does this node declare or modify one of the variables"""
    if n.ast is None:
        return False
    if n.kind == 'range':
        return any(x.get('k') == 'var' and x.get('id') in ids for x in walk(n.ast)) or (n.ast.get('v') or {}).get('id') in ids
    if n.kind in ('lam_enter', 'lam_exit', 'scope_end'):
        l = n.ast if n.kind == 'lam_enter' else {}
        return any(isinstance(p, dict) and p.get('id') in ids for p in l.get('ps', [])) or \
            any(p.get('id') in ids for x in l.get('insts', []) or [] for p in x.get('ps', []))
    for x in walk(n.ast):
        k = x.get('k')
        if k == 'var' and x.get('id') in ids:
            return True
        if k == 'un' and ('++' in x['op'] or '--' in x['op']):
            y = strip(x['e'])
            if y['k'] == 'ref' and y.get('id') in ids:
                return True
        if k == 'bin' and x['op'].endswith('=') and x['op'] not in ('==', '!=', '<=', '>='):
            y = strip(x['a'])
            if y['k'] == 'ref' and y.get('id') in ids:
                return True
        if k in ('call', 'ctor', 'op'):
            for y in x.get('a', []):
                y = strip(y)
                if y is not None and y['k'] == 'un' and y['op'] == '&' and strip(y['e'])['k'] == 'ref' and strip(y['e']).get('id') in ids:
                    return True
    return False


def slots(a, f, cfg, loops, evc, rep, nm):
    """a request stored into a slot of an array is not overwritten by the next message: on every way back to the store the
    slot changes, or the array is waited for or is another one"""
    seen_slots = []
    for n in cfg.nodes:
        if n.i not in evc:
            continue
        for x in walk(n.ast):
            dst = None
            if x.get('k') == 'bin' and x['op'] == '=':
                dst, src = x['a'], x['b']
            elif x.get('k') == 'op' and x['op'] == '=' and len(x['a']) == 2:
                dst, src = x['a']
            elif x.get('k') == 'call' and cname(x).startswith('NG_MPI_I') and x.get('a') and a.source(x):
                dst, src = x['a'][-1], x
            if dst is None or not any(y.get('k') in ('call',) and a.source(y) for y in walk(src)):
                continue
            if not REQ.search(a.ty(dst)) and not (strip(dst)['k'] == 'un'):
                continue
            ix = idxs(dst)
            h = a.holder(dst)
            if not ix or h is None:
                continue
            if any(y.get('k') == 'un' and ('++' in y['op'] or '--' in y['op']) for i in ix for y in walk(i)):
                continue
            ids = {y['id'] for i in ix for y in walk(i) if y.get('k') == 'ref' and y.get('id') is not None}
            if not isinstance(h[0], str):
                ids = ids | {h[0]}
            stop = {m.i for m in cfg.nodes if m is not n and (changes(m, ids) or any(ev[0] == 'wait' and ev[1][0] == h[0] for ev in evc.get(m.i, ())))}
            if changes(n, ids - {h[0]}):
                continue
            lin = linear(ix, a) if len(ix) == 1 else None
            for n2, x2, h2, key2, lin2 in seen_slots:
                if h2 != h[0]:
                    continue
                if key2 == [show(i) for i in ix] and (reach_without(n2, n, stop) or reach_without(n, n2, stop)):
                    rep('overwritten', x, nm(h[0]), "two messages store their requests in the same slot '%s'" % show(strip(dst)))
                elif lin and lin2 and lin[0] == lin2[0] and lin[1] == lin2[1] and lin[1] and lin[2] != lin2[2] and (lin[2] - lin2[2]) % lin[1] == 0 and \
                        {(c[0] if isinstance(c, tuple) else c).i for c in n.ctl} & {(c[0] if isinstance(c, tuple) else c).i for c in n2.ctl} & loops:
                    rep('overwritten', x, nm(h[0]), "the slots '%s' and '%s' of one round and the next coincide" % (show(strip(dst)), key2[0]))
            seen_slots.append((n, x, h[0], [show(i) for i in ix], lin))
            seen, st = set(), [t for t, _ in n.succ]
            while st:
                m = st.pop()
                if m is n:
                    rep('overwritten', x, nm(h[0]), "the slot '%s' does not change from one message to the next: the request is overwritten before it is waited for" % show(strip(dst)))
                    break
                if m.i in seen or m.i in stop:
                    continue
                seen.add(m.i)
                st.extend(t for t, _ in m.succ)


def linear(ix, a):
    """index = c * variable + d with literal c, d: (variable, c, d)"""
    def go(e):
        e = strip(e)
        k = e['k']
        if k == 'int':
            return {None: int(e['v'])}
        if k == 'ref':
            return {e.get('id'): 1}
        if k == 'cast':
            return go(e['e'])
        if k == 'bin' and e['op'] in ('+', '-', '*'):
            p, q = go(e['a']), go(e['b'])
            if p is None or q is None:
                return None
            if e['op'] == '*':
                if set(p) <= {None}:
                    p, q = q, p
                if set(q) <= {None}:
                    return {v: c * q.get(None, 0) for v, c in p.items()}
                return None
            sg = 1 if e['op'] == '+' else -1
            return {v: p.get(v, 0) + sg * q.get(v, 0) for v in set(p) | set(q)}
        return None
    r = go(ix[0])
    if r is None:
        return None
    vs = [v for v in r if v is not None]
    return (vs[0], r[vs[0]], r.get(None, 0)) if len(vs) == 1 else None


def reach_without(a, b, stop):
    seen, st = set(), [t for t, _ in a.succ]
    while st:
        m = st.pop()
        if m is b:
            return True
        if m.i in seen or m.i in stop:
            continue
        seen.add(m.i)
        st.extend(t for t, _ in m.succ)
    return False


def waitany(a, f, cfg, loops, evc, rep, nm):
    """waiting for messages one by one: the number of rounds counts exactly the messages that were started"""
    for n in cfg.nodes:
        for ev in evc.get(n.i, ()):
            if ev[0] != 'wait' or ev[3] != 'NG_MPI_Waitany':
                continue
            hd = [c[0] for c in n.ctl if isinstance(c, tuple) and c[0].i in loops and c[0].kind == 'cond']
            if not hd:
                continue
            c = strip(hd[-1].ast)
            if c['k'] != 'bin' or c['op'] not in ('<', '!='):
                continue
            v, b = strip(c['a']), strip(c['b'])
            if v['k'] != 'ref' or b['k'] != 'ref' or b.get('id') not in a.decl:
                continue

            def const(i):
                d = a.decl.get(i)
                i = strip(d['i']) if d and d.get('i') is not None else None
                return str(i.get('v')) if i is not None and i['k'] == 'int' else None

            def steps(i, before=None):
                out = []
                for m in cfg.nodes:
                    if m.ast is None or m.kind in ('range', 'lam_enter', 'lam_exit', 'scope_end'):
                        continue
                    for x in walk(m.ast):
                        if x.get('k') == 'un' and '++' in x['op'] and strip(x['e']).get('id') == i:
                            out.append((m, 1))
                        elif x.get('k') == 'bin' and x['op'] == '+=' and strip(x['a']).get('id') == i:
                            out.append((m, str(strip(x['b']).get('v'))))
                        elif x.get('k') == 'bin' and x['op'] == '=' and strip(x['a']).get('id') == i:
                            out.append((m, None))
                return out

            def ctl(m):
                out = []
                for c_ in m.ctl:
                    c_, lab = c_ if isinstance(c_, tuple) else (c_, None)
                    out.append((show(c_.ast) if c_.kind == 'cond' else show((c_.ast or {}).get('r')) if c_.kind == 'range' else c_.kind, lab))
                return tuple(out)
            sb = steps(b['id'])
            if const(b['id']) is None or any(s is None for _, s in sb):
                continue
            starts = sorted(ctl(m) for m in cfg.nodes for e2 in evc.get(m.i, ()) if e2[0] == 'start' and isinstance(e2[1], tuple) and e2[1][0] == ev[1][0])
            incs = sorted(ctl(m) for m, s in sb)
            first = const(v['id'])

            def heads(m):
                return {(c_[0] if isinstance(c_, tuple) else c_).i for c_ in m.ctl} & loops
            sh = [heads(m) for m in cfg.nodes for e2 in evc.get(m.i, ()) if e2[0] == 'start' and isinstance(e2[1], tuple) and e2[1][0] == ev[1][0]]
            if any(heads(m) not in sh for m, _ in sb):
                continue    # counted in a loop of its own
            if first is None or (const(b['id']), first) != ('0', '0') or any(str(s) != '1' for _, s in sb) or incs != starts:
                rep('count', ev[2], nm(ev[1][0]), "the messages are waited for one by one, but '%s' is not the number of messages that were started" % show(b))


def persistent(P, R, G):
    """classes that own persistent requests: filling a buffer precedes the start, using it follows the wait"""
    nclass = 0
    bind = {}
    for f in P.fns.values():
        if f.j.get('dep') or not f.j.get('rec') or '_init' not in f.raw():
            continue
        for c in calls(f.j['b']):
            n = cname(c)
            if n in ('NG_MPI_Send_init', 'NG_MPI_Recv_init'):
                b = [x['n'] for x in walk(c['a'][0]) if x.get('k') == 'mem' and x.get('o', {}) and x['o']['k'] == 'this']
                q = [x['n'] for x in walk(c['a'][-1]) if x.get('k') == 'mem' and x.get('o', {}) and x['o']['k'] == 'this']
                if b and q:
                    bind.setdefault(f.j['rec'], {}).setdefault((b[0]), {})[n[7:11]] = q[0]
    for rec, bufs in bind.items():
        nclass += 1
        meths = [f for f in P.fns.values() if f.j.get('rec') == rec and not f.j.get('dep') and not f.j.get('ctor')]
        started, waited = set(), set()

        def members(e):
            return [x['n'] for x in walk(e) if x.get('k') == 'mem' and x.get('o') and x['o']['k'] == 'this']
        touch = {}
        for f in meths:
            t = set()
            for x in walk(f.j['b']):
                if x.get('k') == 'mem' and x.get('o') and x['o']['k'] == 'this' and x['n'] in bufs:
                    t.add(x['n'])
            if any(cname(c).endswith('_init') for c in calls(f.j['b'])):
                continue
            if t:
                touch[f.key] = t
        for f in meths:
            for c in calls(f.j['b']):
                if cname(c) == 'NG_MPI_Startall' or cname(c) == 'NG_MPI_Start':
                    started.update(members({'k': '', 'a': c['a']}))
                if cname(c) in WAITS:
                    waited.update(members({'k': '', 'a': c['a']}))
        for q in sorted(started):
            if q in waited:
                R.ok("%s: persistent requests %s are waited for" % (rec, q))
            else:
                R.violation("persistent:%s:%s" % (rec.split('<')[0], q), rec, "persistent requests %s of %s are started but never waited for" % (q, rec))
        groups = {q for b in bufs.values() for q in b.values()}
        for f in meths:
            own(f, groups, members, R)
        for f in meths:
            if not any(c.get('m') in touch and (c.get('o') or {}).get('k') == 'this' for c in calls(f.j['b'])):
                continue
            cfg = CFG(f.j['b'])
            seq = {}
            for n in cfg.nodes:
                if n.ast is None or n.kind in ('scope_end', 'lam_enter', 'lam_exit', 'range'):
                    continue
                l = []
                for c in calls(n.ast, lambdas=False):
                    nme = cname(c)
                    if nme in ('NG_MPI_Startall', 'NG_MPI_Start'):
                        l.append(('start', set(members({'k': '', 'a': c['a']}))))
                    elif nme in WAITS:
                        l.append(('wait', set(members({'k': '', 'a': c['a']}))))
                    elif c.get('m') in touch and (c.get('o') or {}).get('k') == 'this':
                        l.append(('touch', touch[c['m']], c))
                if l:
                    seq[n.i] = l
            starts = set(q for l in seq.values() for e in l if e[0] == 'start' for q in e[1])

            def tr(n, s):
                for e in seq.get(n.i, ()):
                    if e[0] == 'start':
                        s = frozenset(s - {('w', q) for q in e[1]} | {('s', q) for q in e[1]})
                    elif e[0] == 'wait':
                        s = frozenset(s | {('w', q) for q in e[1]})
                return s
            may, _ = solve(cfg, frozenset(), tr, lambda x, y: x | y)
            must, _ = solve(cfg, frozenset(), tr, lambda x, y: x & y)
            for n in cfg.nodes:
                sm, su = may.get(n.i), must.get(n.i)
                if sm is None:
                    continue
                for e in seq.get(n.i, ()):
                    if e[0] == 'touch':
                        for b in e[1]:
                            snd, rcv = bufs[b].get('Send'), bufs[b].get('Recv')
                            if snd in starts:
                                bad = ('s', snd) in sm and ('w', snd) not in su
                                why = "buffer %s is filled after the send from it was started" % b
                            else:
                                bad = rcv is not None and ('w', rcv) not in su
                                why = "buffer %s is used without waiting for the receive into it" % b
                            # a method that only forwards to one other method is judged at its callers
                            if bad:
                                R.violation("persistent:%s:%s" % (re.sub(r'<.*>', '', f.name), b), f.where(e[2]), "%s: %s" % (f.short, why))
                            else:
                                R.ok("%s: %s" % (f.where(e[2]), show(e[2])))
                    elif e[0] == 'start':
                        s2 = e[1]
                        sm = sm | {('s', q) for q in s2}
                        su = frozenset(su - {('w', q) for q in s2})
                    else:
                        su = su | {('w', q) for q in e[1]}
    R.need("classes with persistent requests", nclass, 1)


def own(f, groups, members, R):
    """starting or waiting for one group of persistent requests depends on no other group, and covers the whole group"""
    cs = [c for c in calls(f.j['b']) if cname(c) in ('NG_MPI_Startall', 'NG_MPI_Start') or cname(c) in WAITS]
    if not cs:
        return
    cfg = CFG(f.j['b'])
    for n in cfg.nodes:
        if n.ast is None or n.kind in ('scope_end', 'lam_enter', 'lam_exit', 'range'):
            continue
        for c in calls(n.ast, lambdas=False):
            nme = cname(c)
            if nme not in ('NG_MPI_Startall', 'NG_MPI_Start') and nme not in WAITS:
                continue
            q = set(members({'k': '', 'a': c['a'][1:] if nme in ('NG_MPI_Startall', 'NG_MPI_Waitall') else c['a']})) & groups
            if len(q) != 1:
                continue
            q = min(q)
            base = re.sub(r'<.*>', '', f.name)
            bad = None
            if nme in ('NG_MPI_Startall', 'NG_MPI_Waitall'):
                m = [x for x in members({'k': '', 'a': c['a'][:1]})]
                if m and set(m) & groups != {q} or not m and strip(c['a'][0])['k'] == 'int':
                    bad = "is called with the number of other requests"
            for m in cfg.nodes:
                if m.kind != 'cond':
                    continue
                o = set(members({'k': '', 'a': [m.ast]})) & groups
                if not o or o == {q}:
                    continue
                r = [reaches(t, n, cfg) for t, _ in m.succ]
                if any(r) and not all(must_reach(t, n, cfg) for t, _ in m.succ):
                    bad = "happens only under a condition on %s" % ', '.join(sorted(o - {q}))
            if bad:
                R.violation("persistent-group:%s:%s" % (base, q), f.where(c), "%s: %s of the persistent requests %s %s" % (f.short, nme, q, bad))
            else:
                R.ok("%s: %s of %s depends on no other group" % (f.where(c), nme, q))


def reaches(a, b, cfg):
    seen, st = set(), [a]
    while st:
        x = st.pop()
        if x is b:
            return True
        if x.i in seen:
            continue
        seen.add(x.i)
        st.extend(t for t, _ in x.succ)
    return False


def must_reach(a, b, cfg):
    """every path from a passes b, or another wait/start of the same group guarded by its own size"""
    seen, st = set(), [a]
    while st:
        x = st.pop()
        if x is b or x.i in seen:
            continue
        if x is cfg.exit:
            return False
        seen.add(x.i)
        for t, _ in x.succ:
            if x.kind == 'cond' and any(reaches(u, b, cfg) for u, _ in x.succ) and not x is a:
                # a guard of its own: follow the side that leads to b
                if not reaches(t, b, cfg):
                    continue
            st.append(t)
    return True


def loopset(cfg):
    """ids of branch nodes that head a loop (they can reach themselves)"""
    out = set()
    heads = set()
    for n in cfg.nodes:
        for c in n.ctl:
            c = c[0] if isinstance(c, tuple) else c
            heads.add(c.i)
    for h in heads:
        seen, st = set(), [s for s, _ in cfg.nodes[h].succ]
        while st:
            x = st.pop()
            if x.i == h:
                out.add(h)
                break
            if x.i in seen:
                continue
            seen.add(x.i)
            st.extend(s for s, _ in x.succ)
    # an 'if' inside a loop also reaches itself: keep only nodes that dominate their own cycle through ctl
    real = set()
    for h in out:
        n = cfg.nodes[h]
        if n.kind in ('range', 'lam_enter'):
            real.add(h)
        elif n.kind == 'cond':
            # loop conditions are reached from within their own controlled region
            for p in cfg.nodes:
                if any((c[0] if isinstance(c, tuple) else c) is n for c in p.ctl):
                    if any(reach1(p, n, cfg)):
                        real.add(h)
                        break
    return real


def reach1(p, n, cfg):
    """does p (controlled by n) lead back to n without leaving n's region"""
    seen, st = set(), [s for s, _ in p.succ]
    while st:
        x = st.pop()
        if x is n:
            yield True
            return
        if x.i in seen:
            continue
        seen.add(x.i)
        if x.kind == 'join' or any((c[0] if isinstance(c, tuple) else c) is n for c in x.ctl):
            st.extend(s for s, _ in x.succ)


def common(cfg, loops, a, b):
    la = set((c[0] if isinstance(c, tuple) else c).i for c in a.ctl) & loops
    lb = set((c[0] if isinstance(c, tuple) else c).i for c in b.ctl) & loops
    return bool(la & lb)


def other_row(start, use, r, a):
    """both sides name one row of a table, and not the same one: the messages in flight are for the rows of other ranks"""
    def row(e):
        for x in walk(e):
            if x.get('k') == 'op' and x['op'] == '[]' and strip(x['a'][0])['k'] == 'ref' and strip(x['a'][0]).get('id') == r:
                return x['a'][1]
        return None
    if isinstance(r, tuple):
        return False
    x, y = row(start), row(use)
    return x is not None and y is not None and show(x) != show(y)
