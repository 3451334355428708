"""C17: the overlapped halo exchange of the hybrid smoothers follows its protocol in every configuration.
 R1 AllocMPIStuff: the persistent requests pair up (a send of one buffer and the receive of the other share a tag, the two
    channels have different tags, buffer, length, peer and request belong together)
 R2 typestate of the four requests, the two buffers and the communication thread along every abstract path of a smoothing
    step (all combinations of overlap / thread / parallel status / number of local steps), entering DCCMap, the smoother's
    helpers and every lambda
 R3 the fields two threads share are only touched while the mutex of the object is held"""
from ..absint import Interp, Client, pval, psym, TRUE, num
from ..ir import walk, kids, cname
from ..facts import AnalysisError
import re

STAGE_EX = 1


def rootvec(p):
    return p


def field_of(path, names):
    """the element of `names` an access path goes through"""
    if not isinstance(path, (tuple, frozenset)):
        return None
    for x in path:
        if isinstance(x, str) and x in names:
            return x
    for x in path:
        if isinstance(x, (tuple, frozenset)):
            r = field_of(x, names)
            if r:
                return r
    return None


class InitClient(Client):
    """collects the *_init calls of AllocMPIStuff"""

    def __init__(self):
        self.inits = {}

    def atom(self, I, st, key):
        return None

    def call(self, I, st, fr, e, q, nm, obj, args):
        if nm in ('NG_MPI_Send_init', 'NG_MPI_Recv_init') and len(args) >= 7:
            self.inits[(nm, id(e))] = (fr.fn.where(e), args)
            return [(st, ('void',))]
        return None

    def once(self, I, fr, n):
        return True


def request_table(P, R):
    """request array -> (kind, buffer, tag)"""
    fns = [f for f in P.fns.values() if f.name == 'amg::DCCMap<double>::AllocMPIStuff' and not f.key.startswith('P:')]
    if not fns:
        raise AnalysisError("C17: DCCMap<double>::AllocMPIStuff not found")
    fn = fns[0]
    c = InitClient()
    I = Interp(P, c)
    I.run(fn, [])
    tab = {}
    bufs = {}
    for (nm, _), (w, a) in sorted(c.inits.items(), key=lambda x: x[1][0]):
        kind = 'send' if 'Send' in nm else 'recv'
        buf, cnt, ty, peer, tag, comm, req = a[:7]
        bf = [x for x in buf[1] if isinstance(x, str)] if buf[0] == 'L' else []
        rq = [x for x in req[1] if isinstance(x, str)] if req[0] == 'L' else []
        idx = [x for x in buf[1] if isinstance(x, tuple) and x[:1] == ('[]',)] if buf[0] == 'L' else []
        pid = [x for x in peer[1] if isinstance(x, tuple) and x[:1] == ('[]',)] if peer[0] == 'L' else []
        if len(bf) < 2 or len(rq) < 2 or not idx:
            raise AnalysisError("C17: cannot resolve the buffer or request of %s (%s)" % (nm, w))
        b, r = bf[-1], rq[-1]
        if not pid or pid[-1][1] != idx[0][1]:
            R.violation("init-peer:%s" % r, w, "the persistent %s on %s is addressed to a process that does not belong to the buffer's index" % (kind, b))
        else:
            R.ok("%s: peer index agrees with buffer index" % r)
        if r in tab:
            R.violation("init-twice:%s" % r, w, "%s is set up twice" % r)
        tab[r] = (kind, b, repr(tag), repr(cnt), w)
        bufs.setdefault(b, []).append(r)
    R.need("persistent request arrays", len(tab), 4)
    R.need("exchange buffers", len(bufs), 2)
    if len(tab) == 4 and len(bufs) == 2:
        for b, rs in bufs.items():
            if sorted(tab[r][0] for r in rs) != ['recv', 'send']:
                R.violation("init-buffer:%s" % b, tab[rs[0]][4], "buffer %s is not used by exactly one send and one receive request" % b)
            elif tab[rs[0]][3] != tab[rs[1]][3]:
                R.violation("init-count:%s" % b, tab[rs[0]][4], "send and receive on %s have different lengths" % b)
            else:
                R.ok("%s: one send, one receive of equal length" % b)
        (b1, r1), (b2, r2) = sorted(bufs.items())
        for s in (b1, b2):
            o = b2 if s == b1 else b1
            snd = [r for r in bufs[s] if tab[r][0] == 'send']
            rcv = [r for r in bufs[o] if tab[r][0] == 'recv']
            for x in snd:
                for y in rcv:
                    if tab[x][2] != tab[y][2]:
                        R.violation("init-tag:%s" % x, tab[x][4], "the send %s and the receive %s on the other side use different tags" % (x, y))
                    else:
                        R.ok("%s/%s share a tag" % (x, y))
        if len({tab[r][2] for r in tab}) < 2:
            R.violation("init-tags", tab[r1[0]][4], "both channels of the halo exchange use one tag")
        else:
            R.ok("the channels have different tags")
        # lengths: block size times the number of exchanged dofs of the table the buffer is iterated with
    return tab, bufs, fn


class Proto(Client):
    """cl = (req states, buf states, buffered vec of each buffer, thread, status of vectors, in-thread flag)"""

    def __init__(self, R, tab, bufs, label):
        self.R, self.tab, self.bufs, self.label = R, tab, bufs, label
        self.reqs = tuple(sorted(tab))
        self.bl = tuple(sorted(bufs))
        self.events = {}

    def init(self):
        return (tuple((r, 'idle') for r in self.reqs), tuple((b, ('empty',)) for b in self.bl), 'none', (), False)

    def bad(self, key, w, text):
        self.R.violation(key, w, text)

    def hit(self, k):
        self.events[k] = self.events.get(k, 0) + 1

    # -- state access
    def get(self, cl):
        return dict(cl[0]), dict(cl[1]), cl[2], dict(cl[3]), cl[4]

    def mk(self, rq, bf, th, vs, it):
        return (tuple(sorted(rq.items())), tuple(sorted(bf.items())), th, tuple(sorted(vs.items(), key=repr)), it)

    def once(self, I, fr, n):
        return any('DCCMap' in str(k) for k in fr.stack)

    def compact(self, I, s):
        for k in [k for k, v in s.store.items() if v[0] not in ('B', 'A', 'N', 'F', 'L')]:
            del s.store[k]
        for k in [k for k in s.asm if isinstance(k, tuple) and k[0] in ('eq0', 'lt0', 'gt0', 'nz', 'eq', 'b')]:
            del s.asm[k]

    def atom(self, I, st, key):
        # neighbours exist: the request arrays are not empty
        if key[0] in ('nz', 'gt0') and field_of(key, self.reqs) and 'Size' in repr(key):
            return True
        if key[0] == 'set' and 'hread' in repr(key):
            return None
        return None

    def inline(self, I, fn, e, fr):
        n = fn.name
        if re.search(r'(DCCMap|HybridBaseSmoother|iterate_buf_vec|MyMPI_WaitAll|HybridBaseMatrix<.*>::Get)', n):
            return True
        # helpers of this file that receive the smoother's objects
        return fn.file.endswith(('hybrid_base_smoother.cpp', 'hybrid_base_smoother.hpp', 'dcc_map.cpp', 'dcc_map.hpp'))

    def conflict(self, cl, fr, e, what):
        """main thread touches the exchange while the communication thread owns it"""
        if cl[2] == 'busy' and not cl[4]:
            self.bad("thread-owned:%s" % fr.fn.short, fr.fn.where(e), "%s while the communication thread may still be working on the exchange" % what)

    # -- writes and reads of the buffers
    def stored(self, I, st, fr, path, v, e):
        b = field_of(path, self.bl)
        src = field_of(v, self.bl)
        if b is None and src is None:
            return
        rq, bf, th, vs, it = self.get(st.cl)
        w = fr.fn.where(e)
        if b is not None and src != b:
            self.conflict(st.cl, fr, e, "buffer %s is written" % b)
            for r in self.bufs[b]:
                if rq[r] == 'active':
                    self.bad("write-active:%s:%s" % (b, fr.fn.short), w, "buffer %s is overwritten while its %s request %s is still active" % (b, self.tab[r][0], r))
            bf[b] = ('filled', self.vecof(v))
            vs[('fill', b)] = self.vecof(v)
            if vs.get(('dirty',)) == self.vecof(v):
                vs.pop(('dirty',), None)
            self.hit('buffer fills')
        if src is not None and b is None:
            self.conflict(st.cl, fr, e, "buffer %s is read" % src)
            for r in self.bufs[src]:
                if self.tab[r][0] == 'recv' and rq[r] == 'active':
                    self.bad("read-active:%s:%s" % (src, fr.fn.short), w, "received data in %s is used before %s has completed" % (src, r))
            if bf[src][0] not in ('recvd', 'consumed') and not any(rq[r] == 'active' and self.tab[r][0] == 'recv' for r in self.bufs[src]):
                self.bad("read-stale:%s:%s" % (src, fr.fn.short), w, "buffer %s is applied although nothing was received into it in this exchange" % src)
            vec = self.vecof(('L', path))
            for o in self.bl:
                if o != src and vs.get(('fill', o)) is not None and vec is not None and vs[('fill', o)] != vec:
                    self.bad("other-vector:%s:%s" % (src, fr.fn.short), w, "the exchange sent values of one vector and applies what it received to another")
            bf[src] = ('consumed', vec)
            vs[('gathered', vec)] = 1
            self.hit('buffer applications')
        st.cl = self.mk(rq, bf, th, vs, it)

    def vecof(self, v):
        """root of the vector an element belongs to"""
        r = None

        def go(x):
            nonlocal r
            if isinstance(x, (tuple, frozenset)):
                if isinstance(x, tuple) and len(x) == 2 and x[0] in ('vec',):
                    r = r or x[1]
                for y in x:
                    go(y)
        go(v)
        return r

    # -- calls
    def call(self, I, st, fr, e, q, nm, obj, args):
        cl = st.cl
        if nm in ('NG_MPI_Startall', 'NG_MPI_Start'):
            a = args[1] if nm == 'NG_MPI_Startall' else args[0]
            r = field_of(a, self.reqs)
            if r is None:
                return None
            return [self.start(st, fr, e, r)]
        if nm in ('MyMPI_WaitAll', 'NG_MPI_Waitall', 'NG_MPI_Wait'):
            a = args[1] if nm == 'NG_MPI_Waitall' else args[0]
            r = field_of(a, self.reqs)
            if r is None:
                return None
            return [self.wait(st, fr, e, r)]
        if nm == 'Data' and obj is not None and field_of(obj, self.reqs):
            return [(st, obj)]
        if nm == 'StartInThread' and args and args[0][0] == 'F':
            rq, bf, th, vs, it = self.get(cl)
            self.hit('thread starts')
            if th == 'busy':
                self.bad("thread-restart:%s" % fr.fn.short, fr.fn.where(e), "work is handed to the communication thread before the previous task was waited for")
            s = st.copy()
            s.cl = self.mk(rq, bf, 'busy', vs, True)
            out = []
            for t, v in I.call_lam(s, fr, e, args[0], (), [], None):
                t = t.copy()
                rq, bf, th, vs, _ = self.get(t.cl)
                t.cl = self.mk(rq, bf, 'busy', vs, False)
                out.append((t, ('void',)))
            return out
        if nm == 'WaitForThread':
            rq, bf, th, vs, it = self.get(cl)
            s = st.copy()
            s.cl = self.mk(rq, bf, 'none', vs, it)
            self.hit('thread waits')
            return [(s, ('void',))]
        if nm == 'GetDCCMap':
            return [(st, ('L', ('dcc',)))]
        if nm in ('SmoothStageRes', 'SmoothStageRHS'):
            stage = pval(args[0][1]) if args and args[0][0] == '#' else None
            self.hit('stage kernels')
            rq = dict(cl[0])
            busy = [r for r in self.reqs if rq[r] == 'active']
            pend = [b for b, s_ in cl[1] if s_[0] == 'recvd']
            filled = [b for b, s_ in cl[1] if s_[0] == 'filled']
            if (stage is None or stage == STAGE_EX) and (busy or cl[2] == 'busy' or pend or filled):
                self.bad("stage:%s" % fr.fn.short, fr.fn.where(e), "the kernel for exchanged rows runs while a halo exchange is in progress (%s)" %
                         (', '.join(busy + pend) or 'communication thread'))
            rq, bf, th, vs, it = self.get(cl)
            if stage is None or stage == STAGE_EX:
                rhs = args[4 if nm == 'SmoothStageRes' else 3]
                w = fr.fn.where(e)
                if rhs[0] == 'L':
                    if vs.get(rhs[1]) in (0, None) and not vs.get(('gathered', rhs[1])):
                        self.bad("not-gathered:%s" % fr.fn.short, w, "the kernel for exchanged rows runs on a right-hand side that may still be "
                                 "distributed: contributions of other processes were not added")
                if args[2][0] == 'L':
                    vs[('dirty',)] = args[2][1]
            s = st.copy()
            s.cl = self.mk(rq, bf, th, vs, it)
            return [(s, ('void',))]
        if nm in ('GetParallelStatus',) and obj is not None and obj[0] == 'L':
            vs = dict(cl[3])
            k = obj[1]
            if k in vs:
                return [(st, num(vs[k]))]
            out = []
            for val in (0, 1, 2):
                s = st.copy()
                rq, bf, th, vs, it = self.get(cl)
                vs[k] = val
                s.cl = self.mk(rq, bf, th, vs, it)
                out.append((s, num(val)))
            return out
        if nm in ('SetParallelStatus', 'Cumulate', 'Distribute') and obj is not None and obj[0] == 'L':
            val = {'Cumulate': 1, 'Distribute': 0}.get(nm)
            if nm == 'SetParallelStatus':
                val = pval(args[0][1]) if args[0][0] == '#' else None
            rq, bf, th, vs, it = self.get(cl)
            s = st.copy()
            if val is None:
                vs.pop(obj[1], None)
            else:
                vs[obj[1]] = int(val)
            vs.pop(('gathered', obj[1]), None)
            s.cl = self.mk(rq, bf, th, vs, it)
            return [(s, ('void',))]
        if nm in ('FV', 'FVDouble', 'FVComplex') and obj is not None and obj[0] == 'L':
            return [(st, ('L', (('vec', obj[1]),)))]
        if q.endswith('::operator()') and obj is not None and obj[0] == 'L' and obj[1] and isinstance(obj[1][0], tuple) and obj[1][0][0] == 'vec':
            return [(st, ('L', obj[1] + ('[]',)))]
        if nm in ('Range', 'Size', 'Part'):
            return None
        return None

    def start(self, st, fr, e, r):
        rq, bf, th, vs, it = self.get(st.cl)
        kind, b = self.tab[r][0], self.tab[r][1]
        w = fr.fn.where(e)
        self.conflict(st.cl, fr, e, "%s is started" % r)
        if rq[r] == 'active':
            self.bad("restart:%s:%s" % (r, fr.fn.short), w, "%s is started again before it was waited for" % r)
        for o in self.bufs[b]:
            if o != r and rq[o] == 'active':
                self.bad("overlap:%s:%s" % (r, fr.fn.short), w, "%s is started on %s while %s is active on the same buffer" % (r, b, o))
        if kind == 'send' and bf[b][0] != 'filled':
            self.bad("send-unfilled:%s:%s" % (r, fr.fn.short), w, "%s is started although %s was not filled for this exchange" % (r, b))
        if kind == 'recv' and bf[b][0] in ('recvd', 'filled'):
            self.bad("recv-over:%s:%s" % (r, fr.fn.short), w, "%s is started while %s still holds data that was not %s" % (r, b, 'applied' if bf[b][0] == 'recvd' else 'sent'))
        rq[r] = 'active'
        if kind == 'send':
            bf[b] = ('sending', bf[b][1] if len(bf[b]) > 1 else None)
        else:
            bf[b] = ('receiving', None)
        self.hit('request starts')
        s = st.copy()
        s.cl = self.mk(rq, bf, th, vs, it)
        return s, ('void',)

    def wait(self, st, fr, e, r):
        rq, bf, th, vs, it = self.get(st.cl)
        kind, b = self.tab[r][0], self.tab[r][1]
        self.conflict(st.cl, fr, e, "%s is waited for" % r)
        self.hit('request waits')
        if rq[r] == 'active':
            rq[r] = 'idle'
            bf[b] = ('recvd', None) if kind == 'recv' else ('sent', None)
        s = st.copy()
        s.cl = self.mk(rq, bf, th, vs, it)
        return s, ('void',)

    def finish(self, fn, outs):
        for s, v in outs:
            rq, bf, th, vs, it = self.get(s.cl)
            conf = self.describe(s)
            for r in self.reqs:
                if rq[r] == 'active':
                    self.bad("left-active:%s:%s" % (r, self.label), fn.where(), "%s returns with %s still active (%s)" % (fn.short, r, conf))
            for b in self.bl:
                if bf[b][0] == 'recvd':
                    self.bad("left-data:%s:%s" % (b, self.label), fn.where(), "%s returns without applying the data received in %s (%s)" % (fn.short, b, conf))
                if bf[b][0] == 'filled':
                    self.bad("left-filled:%s:%s" % (b, self.label), fn.where(), "%s returns although the values moved to %s were never sent (%s)" % (fn.short, b, conf))
            if th == 'busy':
                self.bad("left-thread:%s" % self.label, fn.where(), "%s returns while the communication thread is still running its task (%s)" % (fn.short, conf))
            if ('dirty',) in vs:
                self.bad("left-dirty:%s" % self.label, fn.where(), "%s returns although the updated exchanged rows of the solution were never sent (%s)" % (fn.short, conf))
            if vs.get(('x',)) != 1:
                self.bad("left-status:%s" % self.label, fn.where(), "%s returns with the solution not in cumulated state (%s)" % (fn.short, conf))

    def describe(self, s):
        r = []
        for k, v in s.asm.items():
            if k[0] == 'f':
                r.append('%s%s' % ('' if v else '!', k[1][-1]))
        return ', '.join(sorted(r))


def lock_discipline(P, R):
    """R3"""
    n = 0
    for name in sorted(P.recs):
        if name.startswith('P:'):
            continue
        r = P.rec(name)
        if not r.get('file') or not any('std::mutex' in f['t'] for f in r['fields']):
            continue
        cls = r['q']
        exempt = {f['n'] for f in r['fields'] if re.search(r'mutex|condition_variable|atomic|std::thread', f['t'])}
        shared = {f['n'] for f in r['fields']} - exempt
        meths = [f for f in P.fns.values() if f.j.get('recq') == cls and not f.key.startswith('P:')]
        written = set()
        for f in meths:
            if f.short == cls.rsplit('::', 1)[-1]:
                continue
            for x in walk(f.j['b']):
                if x['k'] in ('bin', 'op') and x['op'].endswith('=') and x['op'] not in ('==', '!=', '<=', '>='):
                    l = x['a'] if x['k'] == 'bin' else x['a'][0]
                    if l['k'] == 'mem' and l.get('own') == cls:
                        written.add(l['n'])
        shared &= written
        R.need("fields shared between the threads", len(shared), 3)
        # private helpers that are only called with the lock held
        held_only = set()
        for f in meths:
            if f.short == cls.rsplit('::', 1)[-1]:
                continue
        res = {}

        def scan(f, held0):
            bad, callees = [], []

            def go(x, held):
                """returns whether the lock is held after x (declarations extend to the end of the block)"""
                if x is None:
                    return held
                k = x['k']
                if k == '{':
                    h = held
                    for y in x['b']:
                        h = go(y, h)
                    return held
                if k == 'decl':
                    h = held
                    for d in x['d']:
                        if d['k'] == 'var' and re.search(r'(lock_guard|unique_lock|scoped_lock)', f.ty(d.get('t'))):
                            txt = repr(d.get('i'))
                            h = h or 'defer_lock' not in txt and 'try_to_lock' not in txt
                        else:
                            for y in kids(d):
                                go(y, h)
                    return h
                if k == 'call' and cname(x) == 'unlock' and 'lock' in f.ty((x.get('o') or {}).get('t')) + repr(x.get('f')):
                    return False
                if k == 'call' and cname(x) == 'lock' and re.search(r'mutex|lock', x.get('f', '')):
                    return True
                if k == 'call' and cname(x) in ('wait', 'wait_for', 'wait_until') and 'condition_variable' in x.get('f', ''):
                    if not held:
                        bad.append((x, 'the condition variable is waited on without the lock'))
                    if len(x['a']) < 2:
                        bad.append((x, None)) if False else None
                    for y in x['a']:
                        if y['k'] == 'lam' or (strip2(y) or {}).get('k') == 'lam':
                            l = y if y['k'] == 'lam' else strip2(y)
                            go(l.get('b'), held)
                        else:
                            go(y, held)
                    return held
                if k == 'lam':
                    go(x.get('b'), False)      # runs later, somewhere else
                    for i in x.get('insts', []):
                        go(i.get('b'), False)
                    return held
                if k == 'mem' and x.get('own') == cls and x['n'] in shared and not held:
                    bad.append((x, "%s is accessed without holding the mutex" % x['n']))
                if k == 'call' and (x.get('o') or {}).get('k') == 'this' and x.get('m') in P.fns and P.fns[x['m']].j.get('recq') == cls:
                    callees.append((x['m'], held))
                h = held
                for y in kids(x):
                    h2 = go(y, h)
                    if k not in ('if', 'for', 'while', 'do', 'sw'):
                        h = h2
                return h if k in ('call', 'un', 'bin') else held
            go(f.j['b'], held0)
            return bad, callees

        isctor = lambda f: f.short == cls.rsplit('::', 1)[-1]
        calls = {}
        for f in meths:
            for m, h in scan(f, False)[1]:
                calls.setdefault(m, []).append(h)
        for f in meths:
            if isctor(f):
                continue
            cs = calls.get(f.key, [])
            private = cs and all(cs)
            bad, _ = scan(f, bool(private))
            n += 1
            for x, t in bad:
                R.violation("lock:%s:%s" % (f.short, x.get('n', 'wait')), f.where(x), "%s in %s: another thread may use it at the same time" % (t, f.name))
            if not bad:
                R.ok("%s touches shared fields only under the mutex" % f.name)
    return n


def strip2(y):
    while y is not None and y['k'] in ('ctor', 'cast', 'darg') and (y.get('a') or y.get('e')):
        y = y['a'][0] if y['k'] == 'ctor' else y['e']
    return y


def run(P, R):
    tab, bufs, af = request_table(P, R)
    R.expl.append("The persistent requests set up by AllocMPIStuff are paired by buffer, peer, length and tag. From Smooth and SmoothBack of the "
                  "hybrid smoother all abstract paths (overlap, communication thread, parallel status, flags, number of local steps) are followed "
                  "through the smoother's helpers, the DCCMap operations and their lambdas; the typestate of requests, buffers and the thread is "
                  "checked at each start, wait, fill, application and stage kernel and at return. The fields of classes with a mutex are checked "
                  "for accesses outside a lock.")
    R.assume += ["request arrays and exchange tables are not empty (with no neighbour nothing is sent or received)",
                 "the task handed to the communication thread behaves as if it ran between StartInThread and WaitForThread"]
    tot = {}
    npaths = 0
    done = 0
    if len(tab) == 4 and len(bufs) == 2:
        for ent in ('Smooth', 'SmoothBack'):
            for fn in P.fns.values():
                if fn.name == 'amg::HybridBaseSmoother<double>::' + ent and not fn.key.startswith('P:'):
                    c = Proto(R, tab, bufs, ent)
                    I = Interp(P, c)
                    outs = I.run(fn, [('L', ('x',)), ('L', ('b',)), ('L', ('res',)), ('A', 'res_updated'), ('A', 'update_res'), ('A', 'x_zero')],
                                 cl=c.init(), cls='amg::HybridBaseSmoother<double>')
                    c.finish(fn, outs)
                    done += 1
                    npaths += len(outs)
                    for k, v in c.events.items():
                        tot[k] = tot.get(k, 0) + v
                    for i in range(len(outs)):
                        R.ok("%s: exchange completed on every path (final state %d)" % (ent, i) if i < 3 else None)
        R.need("smoothing entry points", done, 2)
        R.need("abstract final states", npaths, 8)
        for k, lo in (('buffer fills', 2), ('buffer applications', 2), ('request starts', 4), ('request waits', 4),
                      ('thread starts', 2), ('thread waits', 2), ('stage kernels', 3)):
            R.need(k, tot.get(k, 0), lo)
    R.need("methods under lock discipline", lock_discipline(P, R), 3)
