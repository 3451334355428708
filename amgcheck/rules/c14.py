"""C14: records are copied, compared, accumulated and communicated with all their members"""
import re
from ..ir import walk, kids, strip, cname

WRITE_OPS = {'=', '+=', '-=', '*=', '/=', '|=', '&='}
# members that are deliberately not part of a copy (confirmed by reading)
EXC = {
    ('amg::TopologicMesh', 'free_nodes'): 'never read in the repository',
    ('amg::NgsAMG_Comm', 'hacky_w_buffer'): 'messages in flight stay with the communicator object that started them',
    ('amg::UniversalDofs', '_comm'): 'determined by the parallel dofs, which are compared',
}
SCALAR = {'NG_MPI_DOUBLE': ('double', 8), 'NG_MPI_INT': ('int', 4), 'NG_MPI_CHAR': ('char', 1), 'NG_MPI_FLOAT': ('float', 4),
          'NG_MPI_UINT64_T': ('unsigned long', 8), 'NG_MPI_INT64_T': ('long', 8), 'NG_MPI_LONG': ('long', 8)}


def root_member(fn, e, who):
    """first member below the object `who` ('this' or a parameter id) that the access path e goes through"""
    e = strip(e)
    last = None
    while e is not None:
        k = e.get('k')
        if k in ('mem', 'dmem'):
            last = e.get('n')
            o = e.get('o')
            if o is None:
                return None
            o = strip(o)
            if o['k'] == 'this':
                return last if who == 'this' else None
            if o['k'] == 'un' and o['op'] == '*' and strip(o['e'])['k'] == 'this':
                return last if who == 'this' else None
            if o['k'] == 'ref' and o.get('id') == who and o.get('dk') in ('p', 'v'):
                return last
            e = o
        elif k == 'sub':
            e = strip(e['o'])
        elif k == 'op' and e.get('op') in ('[]', '()', '*', '->') and e.get('a'):
            e = strip(e['a'][0])
        elif k == 'un' and e['op'] in ('*', '&'):
            e = strip(e['e'])
        elif k == 'cast':
            e = strip(e['e'])
        elif k == 'call' and e.get('o') is not None:
            e = strip(e['o'])
        else:
            return None
    return None


def members_of(fn, e, who):
    r = set()
    for x in walk(e):
        if x.get('k') in ('mem', 'dmem'):
            m = root_member(fn, x, who)
            if m:
                r.add(m)
    return r


def whole(fn, e, who):
    """the object itself is handed on"""
    return any(x.get('k') == 'ref' and x.get('id') == who and x.get('dk') == 'p' for x in walk(e))


def writes(fn, b):
    """(member of this written, value expression, op, node)"""
    out = []
    for x in walk(b):
        k = x.get('k')
        if k == 'bin' and x['op'] in WRITE_OPS:
            m = root_member(fn, x['a'], 'this')
            if m:
                out.append((m, x['b'], x['op'], x))
        elif k == 'op' and x.get('op') in WRITE_OPS and len(x.get('a', [])) == 2:
            m = root_member(fn, x['a'][0], 'this')
            if m:
                out.append((m, x['a'][1], x['op'], x))
        elif k == 'call' and x.get('o') is not None and not x.get('cm'):
            m = root_member(fn, x['o'], 'this')
            if m and x.get('a'):
                out.append((m, {'k': 'ilist', 'a': x['a']}, 'call', x))
            if m and not x.get('a') and x.get('f', '').endswith('operator='):
                pass
        if k in ('call', 'ctor', 'op'):
            rm = x.get('rm') or 0
            for i, a in enumerate(x.get('a', []) or []):
                if a is not None and rm >> i & 1 and not (k == 'op' and i == 0):
                    m = root_member(fn, a, 'this')
                    if m:
                        out.append((m, {'k': 'ilist', 'a': [y for j, y in enumerate(x['a']) if j != i and y is not None]}, 'call', x))
    return out


def fields(P, rec):
    return [f for f in rec['fields'] if f.get('n')]


def nonempty(P, name):
    r = P.rec(name)
    if r is None:
        return True
    return bool(r['fields']) or any(nonempty(P, b) for b, v in r['bases'])


def check_copy(P, R, f, rec, kind):
    j = f.j
    ps = [p for p in j['ps'] if isinstance(p, dict)]
    if not ps:
        return
    other = ps[0].get('id')
    base = re.sub(r'<.*', '', rec['n'])
    inits = j.get('inits', []) or []
    ini = {}
    baseok = False
    delegated = False
    for it in inits:
        if it.get('i') is None:
            continue
        if it.get('m'):
            ini[it['m']] = it['i']
        elif whole(f, it['i'], other):
            baseok = True
    W = writes(f, j['b'])
    basecalls = [x for x in walk(j['b']) if x.get('k') == 'call' and x.get('f', '').endswith('::operator=') and any(whole(f, a, other) for a in x.get('a', []) if a)]
    basecalls += [x for x in walk(j['b']) if x.get('k') == 'op' and x.get('op') == '=' and x.get('a') and strip(x['a'][0]).get('k') in ('un', 'cast', 'this') and whole(f, x['a'][-1], other)]
    byref = {}
    for fd in fields(P, rec):
        n = fd['n']
        if (base, n) in EXC:
            continue
        srcs = []
        if n in ini:
            srcs.append((ini[n], None))
        for m, v, op, nd in W:
            if m == n:
                srcs.append((v, nd))
        good = False
        wrong = None
        for v, nd in srcs:
            om = members_of(f, v, other)
            if n in om:
                good = True
                break
            if om:
                wrong = sorted(om)
            elif whole(f, v, other) or (members_of(f, v, 'this') - {n}):
                good = True     # built from the rest of the object
                break
        if good:
            R.ok("%s: %s of %s takes over '%s'" % (f.where(), kind, base, n))
            R.count("members of copies")
        elif wrong:
            R.violation("copy:%s:%s:%s" % (base, kind, n), f.where(), "%s of %s sets member '%s' from '%s' of the other object" % (kind, base, n, ",".join(wrong)))
        else:
            R.violation("copy:%s:%s:%s" % (base, kind, n), f.where(), "%s of %s does not take over member '%s'" % (kind, base, n))
    for b, virt in rec['bases']:
        if not nonempty(P, b):
            continue
        if (baseok if j.get('ctor') else basecalls):
            R.ok()
        else:
            R.violation("copy:%s:%s:base" % (base, kind), f.where(), "%s of %s does not take over its base class %s" % (kind, base, b[:60]))


def flat_fields(P, name, off=0):
    r = P.rec(name)
    if r is None or r.get('size') is None:
        return None
    out = []
    nb = [b for b, v in r['bases']]
    for b, o in zip(nb, r.get('boffs', [])):
        x = flat_fields(P, b, off + o)
        if x is None:
            return None
        out += x
    for fd in r['fields']:
        if 'o' not in fd:
            return None
        out.append((off + fd['o'], fd['s'], fd['t'], fd['n']))
    return out


class Ev:
    """evaluation of the integer / type lists handed to MPI_Type_create_struct"""

    def __init__(self, P, fn, env=None):
        self.P, self.fn, self.env = P, fn, env or {}
        self.arr = {}
        for x in walk(fn.j['b']):
            if x.get('k') == 'var' and x.get('i') is not None:
                self.arr.setdefault(x['id'], x['i'])
        self.stores = {}
        for x in walk(fn.j['b']):
            if x.get('k') in ('bin', 'op') and x.get('op') == '=':
                a = x['a'] if x['k'] == 'bin' else x['a'][0]
                v = x['b'] if x['k'] == 'bin' else x['a'][1]
                a = strip(a)
                if a['k'] in ('sub', 'op') and (a.get('op') in (None, '[]')):
                    o = strip(a['o'] if a['k'] == 'sub' else a['a'][0])
                    i = self.num(a['i'] if a['k'] == 'sub' else a['a'][1])
                    if o['k'] == 'ref' and i is not None:
                        self.stores.setdefault(o['id'], {})[i] = v

    def num(self, e):
        e = strip(e)
        if e is None:
            return None
        k = e.get('k')
        if k == 'int':
            return e['v']
        if k == 'sizeof':
            return e.get('v')
        if k == 'enum':
            return e.get('val')
        if k == 'offsetof':
            return e.get('v')
        if k in ('ctor',) and len(e['a']) == 1:
            return self.num(e['a'][0])
        if k == 'cast':
            return self.num(e['e'])
        if k == 'bin':
            a, b = self.num(e['a']), self.num(e['b'])
            if a is None or b is None:
                return None
            return {'+': a + b, '-': a - b, '*': a * b}.get(e['op'])
        if k == 'ref':
            if isinstance(e.get('ce'), int):
                return e['ce']
            if e.get('id') in self.env:
                ev, x = self.env[e['id']]
                return ev.num(x)
            if e.get('id') in self.arr:
                return self.num(self.arr[e['id']])
        if k in ('sub',):
            o, i = strip(e['o']), self.num(e['i'])
            l = self.lst(o)
            if l is not None and i is not None and i < len(l):
                return self.num(l[i])
        return None

    def lst(self, e):
        e = strip(e)
        if e is None:
            return None
        if e.get('k') == 'cast':
            return self.lst(e['e'])
        if e.get('k') == 'ilist':
            return e['a']
        if e.get('k') == 'ref':
            if e.get('id') in self.env:
                ev, x = self.env[e['id']]
                return ev.lst(x)
            l = self.lst(self.arr[e['id']]) if e.get('id') in self.arr else None
            s = self.stores.get(e.get('id'))
            if s:
                n = max(list(s) + [len(l or []) - 1]) + 1
                l = [s.get(i, (l or [None] * n)[i] if i < len(l or []) else None) for i in range(n)]
            return l
        if e.get('k') == 'un' and e['op'] == '&':
            x = strip(e['e'])
            if x['k'] == 'sub' and self.num(x['i']) == 0:
                return self.lst(x['o'])
        if e.get('k') == 'call' and cname(e) in ('data', 'Data', 'begin') and e.get('o') is not None:
            return self.lst(e['o'])
        if e.get('k') == 'ctor' and len(e.get('a', [])) == 1:
            return self.lst(e['a'][0])
        return None

    def typ(self, e):
        e = strip(e)
        if e is None:
            return None
        if e.get('k') == 'call' and cname(e) == 'GetMPIType' and e.get('ta'):
            return self.fn.ty(e['ta'][0])
        if e.get('k') == 'call' and cname(e) == 'MPIType':
            m = re.match(r'.*MPI_typetrait<(.*)>::MPIType$', e.get('f', ''))
            return m.group(1) if m else None
        if e.get('k') == 'ref' and e.get('n') in SCALAR:
            return SCALAR[e['n']][0]
        if e.get('k') in ('cast',):
            return self.typ(e['e'])
        if e.get('k') == 'ctor' and len(e.get('a', [])) == 1:
            return self.typ(e['a'][0])
        return None


SZ = {'double': 8, 'int': 4, 'char': 1, 'float': 4, 'long': 8, 'unsigned long': 8, 'unsigned int': 4, 'short': 2, 'bool': 1}


def tnorm(t):
    return re.sub(r'\b(const|struct|class) ', '', t).strip()


def check_mpi(P, R, f, T):
    """all MPI_Type_create_struct reached from f"""
    def find(fn, env, depth):
        for x in walk(fn.j['b']):
            if x.get('k') == 'call' and cname(x).endswith('MPI_Type_create_struct'):
                yield Ev(P, fn, env), x
            elif x.get('k') == 'call' and x.get('m') in P.fns and depth < 2 and not P.fns[x['m']].j.get('dep') and not cname(x) == 'MPIType' and 'GetMPIType' not in cname(x):
                g = P.fns[x['m']]
                ev = Ev(P, fn, env)
                yield from find(g, {p['id']: (ev, a) for p, a in zip([p for p in g.j['ps'] if isinstance(p, dict) and 'id' in p], x['a'])}, depth + 1)
    ff = flat_fields(P, T)
    n = 0
    base = tnorm(T)
    for ev, c in find(f, {}, 0):
        n += 1
        cnt = ev.num(c['a'][0])
        bl, ds, ts = ev.lst(c['a'][1]), ev.lst(c['a'][2]), ev.lst(c['a'][3])
        if cnt is None or bl is None or ds is None or ts is None or ff is None:
            R.count("undecided datatypes")
            continue
        ent = []
        for i in range(cnt):
            if i >= len(bl) or i >= len(ds) or i >= len(ts):
                R.violation("mpitype:%s:count" % base, f.where(c), "the MPI datatype of %s announces %d entries but its arrays have fewer" % (base, cnt))
                return n
            ent.append((ev.num(bl[i]), ev.num(ds[i]), ev.typ(ts[i])))
        if any(x is None for e in ent for x in e):
            R.count("undecided datatypes")
            continue
        cov = {}
        bad = None
        at = {o: (s, t, m) for o, s, t, m in ff}
        for b, d, t in ent:
            t = tnorm(t)
            pos = d
            if t in SZ:
                size = SZ[t] * b
                while size > 0 and pos in at and at[pos][0] <= size:
                    s, ft, m = at[pos]
                    if ft in SZ and tnorm(ft) != t:
                        bad = "member '%s' (%s) is sent as %s" % (m, ft, t)
                    if ft not in SZ and t not in ft:
                        bad = "member '%s' (%s) is sent as %s" % (m, ft, t)
                    cov[m] = cov.get(m, 0) + 1
                    pos += s
                    size -= s
                if size > 0:
                    bad = bad or "entry at offset %d with %d bytes does not match the members" % (d, SZ[t] * b)
            else:
                for i in range(b):
                    if pos not in at:
                        bad = bad or "no member at offset %d" % pos
                        break
                    s, ft, m = at[pos]
                    if tnorm(ft) != t:
                        bad = bad or "member '%s' (%s) is sent as %s" % (m, ft[:40], t[:40])
                    cov[m] = cov.get(m, 0) + 1
                    pos += s
        miss = [m for o, s, t, m in ff if m not in cov]
        twice = [m for m, k in cov.items() if k > 1]
        if bad or miss or twice:
            R.violation("mpitype:%s" % base, f.where(c), "MPI datatype of %s: %s" % (base, bad or ("member(s) %s not communicated" % ",".join(miss) if miss else "member(s) %s listed twice" % ",".join(twice))))
        else:
            R.ok("%s: datatype of %s covers %s" % (f.where(c), base, ", ".join(m for o, s, t, m in ff)))
            R.count("MPI datatypes")
    return n


def same(f, p, rec):
    t = re.sub(r'^const ', '', f.ty(p['t'])).rstrip('& ')
    if not rec.get('dep'):
        return t == rec['n']
    return re.sub(r'<.*', '', t).rsplit('::', 1)[-1] == rec['q'].rsplit('::', 1)[-1]


def run(P, R):
    ncp = nop = 0
    owners = {}
    for k in P.recs:
        r = P.rec(k)
        if r.get('dep'):
            continue
        owners[r['n']] = r
    done = {(f.file, f.line) for f in P.fns.values() if not f.j.get('dep')}
    for f in sorted(P.fns.values(), key=lambda f: (f.file, f.line, f.name)):
        j = f.j
        if j.get('dflt') or (j.get('dep') and (f.file, f.line) in done):
            continue
        rn = j.get('rec')
        rec = P.rec(rn) if rn else None
        if j.get('dep'):
            rec = P.rec('P:' + (j.get('recq') or '')) if rn else None
            if rn and rec is None:
                continue
        ps = [p for p in j['ps'] if isinstance(p, dict)]
        if rec is not None and j.get('dep') and j.get('ctor') and len(ps) == 1 and same(f, ps[0], rec) and f.ty(ps[0]['t']).endswith('&'):
            ncp += 1
            check_copy(P, R, f, rec, 'move constructor' if f.ty(ps[0]['t']).endswith('&&') else 'copy constructor')
        elif rec is not None and j.get('ctor') and (j.get('cp') or j.get('mv')):
            if not any(it.get('deleg') for it in j.get('inits', [])):
                ncp += 1
                check_copy(P, R, f, rec, 'copy constructor' if j.get('cp') else 'move constructor')
        elif rec is not None and f.short == 'operator=' and len(ps) == 1:
            pt = re.sub(r'^const ', '', f.ty(ps[0]['t'])).rstrip('& ')
            if same(f, ps[0], rec) and not any('SwapWith' in x.get('f', '') or cname(x) == 'swap' for x in walk(j['b']) if x.get('k') == 'call'):
                ncp += 1
                check_copy(P, R, f, rec, 'assignment')
            elif pt in ('double', 'float', 'int') and any(m['n'] == 'operator+=' for m in rec['methods']) and rec['fields']:
                W = {m for m, v, op, nd in writes(f, j['b'])}
                for fd in fields(P, rec):
                    if fd['n'] in W:
                        R.ok()
                        R.count("members set by a scalar")
                    else:
                        R.violation("set:%s:%s" % (re.sub(r'<.*', '', rec['n']), fd['n']), f.where(), "setting a %s to a number leaves member '%s' as it was" % (re.sub(r'<.*', '', rec['n']), fd['n']))
        elif f.short in ('operator+=', 'operator=='):
            if rec is not None and len(ps) == 1:
                me, other, T = 'this', ps[0].get('id'), re.sub(r'^const ', '', f.ty(ps[0]['t'])).rstrip('& ')
                if not same(f, ps[0], rec):
                    continue
                tr = rec
            elif rec is None and len(ps) == 2:
                ta, tb = [re.sub(r'^const ', '', f.ty(p['t'])).rstrip('& ') for p in ps]
                tr = P.rec(ta)
                if ta != tb or tr is None:
                    continue
                me, other = ps[0].get('id'), ps[1].get('id')
            else:
                continue
            allf = [m for o, s, t, m in (flat_fields(P, tr['n']) or [])] if not tr.get('dep') else [fd['n'] for fd in fields(P, tr)]
            if not allf:
                continue
            nop += 1
            base = re.sub(r'<.*', '', tr['n'])
            if f.short == 'operator+=':
                got = {m: v for m, v, op, nd in writes(f, j['b']) if op == '+=' and m in members_of(f, v, other)}
                for n in allf:
                    if n in got:
                        R.ok()
                        R.count("members accumulated")
                    else:
                        R.violation("add:%s:%s" % (base, n), f.where(), "operator+= of %s does not add member '%s'" % (base, n))
            else:
                deleg = any(x.get('k') in ('call', 'op') and x.get('m') in P.fns and x.get('m') != f.key and whole(f, x, other) for x in walk(j['b'])) and not members_of(f, j['b'], other)
                if deleg:
                    R.ok()
                    continue
                a, b = members_of(f, j['b'], me), members_of(f, j['b'], other)
                for m, v, op, nd in writes(f, j['b']):
                    if op == '=':
                        R.violation("eqw:%s:%s" % (base, m), f.where(nd), "operator== of %s assigns member '%s'" % (base, m))
                for n in allf:
                    if (base, n) in EXC or n in a and n in b:
                        R.ok()
                        R.count("members compared")
                    else:
                        R.violation("eq:%s:%s" % (base, n), f.where(), "operator== of %s does not compare member '%s'" % (base, n))
        if f.short == 'MPIType' and rn:
            m = re.match(r'(?:ngcore::)?MPI_typetrait\w*<(.*)>$', rn)
            if m and m.group(1) in owners:
                check_mpi(P, R, f, m.group(1))
    R.need("copy / move functions", ncp, 12)
    R.need("accumulate / compare operators", nop, 6)
    R.expl.append("All user-written copy and move constructors, assignments, operator+=, operator== and scalar assignments of instantiated records were enumerated; for each non-static data member "
                  "(and each non-empty base) the member must be initialised, assigned or compared from the same member of the other object, or rebuilt from members of the new object. "
                  "For every MPI struct datatype the block lengths, displacements and element types are evaluated and compared with the record layout computed by the compiler: every member exactly once, at its offset, with its type.")
    R.assume += ["record layout as computed by clang for this target", "a member that is rebuilt from other members is rebuilt correctly", "uninstantiated templates are not analysed"]
