"""C08: what the user sets reaches the component it is meant for.
 R1 every option key the code accepted is still accepted; a key feeds one option; no key feeds an option that has another
    option's name while that option exists; keys are looked up with the prefix
 R2 every option that is read from the flags is used somewhere outside of the functions that parse and print options
 R3 a boolean flag set to true / false makes its option true / false (exhaustive evaluation over the three states of the flag
    and the two of the default); defaults are set before the flags are read, adjustments after; parsers call those of their
    base records; no constant replaces an option after it was read; per-level options are asked for the level at hand
 R4 the names of an enumerated option and its enumerators correspond position by position; no two enumerators of a dispatch
    select identical actions
 R5 arguments are not permuted: no argument carries the name of another parameter (of a compatible type) of the callee,
    following make_shared and base / delegating constructors; likewise member initialisers
 R6 Python bindings: py::arg names and the parameters of the bound lambda correspond; every parameter is used
 R7 a function that depends on an option keeps doing so (itself, through a helper or through its caller), and an argument that
    carries an option is not a constant or another option (table of the base revision)."""
import json, os, re
from ..graph import CallGraph
from ..ir import walk, kids, cname, strip

OPTREC = re.compile(r'Option|Opts')
PARSER = re.compile(r'FromFlags|MakeOptions')
# option keys that scripts use (prefix stripped), read off the parsing functions of the base revision
KEYS = set("""
FULL_P1 P0 P1 RTZ aaf aaf_scale agg_print_aggs agg_print_vmap amg_sm_single_fls aux_elmat_version build_div_mats
calc_elmat_evs check_aux_mats check_isolated_vertices check_kvecs check_loop_divs cinv_type cinv_type_loc clev crs_alg
crs_robust do_test dof_ordering ecw_geom ecw_stab_hack edge_thresh enable_dyn_crs enable_multistep enable_redist energy
faflm first_aaf first_rdaf force_nolo improve_avgs improve_c_aux_mats keep_grid_maps lo log_file log_file_pc log_level
log_level_pc lower max_coarse_size max_levels mg_cycle min_coarse_size mis mis_dist2 mis_ecw_geom mis_ecw_minmax
mis_lazy_neib_boost mis_minmax_avg mis_neib_boost ngs_amg_pres_vecs on_dofs plate_test print_log print_log_pc prol_type
rd_crs_thresh rd_loc_gl rd_loc_thresh rd_min_nv_gl rd_min_nv_thresh rd_pfac rd_seq_nv rdaf rdaf_scale regularize_cmats
rot_scale sm_NG_MPI_overlap sm_NG_MPI_thread sm_shm sm_sl2 sm_steps sm_steps_loc sm_symm sm_symm_loc sm_type sm_type_pot
sm_type_range sm_use_fes_blocks smooth_after_emb smooth_lo_only sp_improve_its sp_max_per_row sp_max_per_row_classic
sp_min_frac sp_needs_cmap sp_omega sp_use_asb sp_use_roots spw spw_big_soc_bdiag spw_big_soc_hack_thresh
spw_big_soc_robust spw_cbs spw_diag_stab_boost spw_neib_boost spw_orphan_treatment spw_pick_avg spw_pick_robust
spw_print_params spw_print_summ spw_rounds subset sync test_2level test_levels test_smoothers topology upper use_aux_mat
use_dynbs_prols use_emb_sp vert_thresh vpos""".split())
# role names that only decorate
NOISE = {'ng', 'mpi', 'sm', 'o', 'opt', 'num', 'nr', 'the', 'my', 'a', 'is', 'use', 'in', 'do', 'm', 'p', 's'}


def toks(n):
    n = re.sub(r'([a-z0-9])([A-Z])', r'\1_\2', n or '').lower()
    out = []
    for t in re.split(r'[_\W]+', n):
        if t == 'nsteps':
            t = 'steps'
        if t and t not in NOISE:
            out.append(t)
    return frozenset(out)


def sim(a, b):
    A, B = toks(a), toks(b)
    i = A & B
    if not i or max(len(t) for t in i) < 3:
        return 0.0
    return len(i) / len(A | B)


def argname(e):
    while True:
        e = strip(e)
        if e is None:
            return None
        if e['k'] == 'cast':
            e = e['e']
        elif e['k'] == 'un' and e['op'] in ('*', '&'):
            e = e['e']
        elif e['k'] == 'op' and e['op'] == '*' and len(e['a']) == 1:
            e = e['a'][0]
        else:
            break
    if e['k'] in ('ref', 'mem'):
        return e['n']
    return None


ARITH = re.compile(r'^(const )?(bool|char|int|unsigned.*|long.*|short|double|float|size_t)( const)?( ?&)?$')


def compat(a, b):
    if a == b:
        return True
    return bool(ARITH.match(a) and ARITH.match(b))


# ------------------------------------------------------------------------------------------------ R1, R2
def parsers(P):
    seen = {}
    for f in P.fns.values():
        if not f.j.get('b') or not PARSER.search(f.short) or 'SpecOpt' in f.name:
            continue
        if any('Flags' in f.ty(p['t']) for p in f.j['ps'] if p.get('t') is not None):
            seen.setdefault((f.file, f.j['l']), []).append(f)
    out = []
    for k in sorted(seen):
        fs = seen[k]
        inst = [f for f in fs if not f.key.startswith('P:')]
        out.append((inst or fs)[0])
    return out


def keylits(n):
    out = []

    def go(x):
        if x is None or x['k'] in ('ilist', 'lam'):
            return
        if x['k'] == 'str' and re.fullmatch(r'[A-Za-z][A-Za-z0-9_]*', x['v'] or ''):
            out.append(x['v'])
        if x['k'] == 'ctor' and 'Array' in x.get('f', ''):
            return
        for y in kids(x):
            go(y)
    go(n)
    return out


def optfields(n):
    return {(x['own'], x['n']) for x in walk(n) if x['k'] == 'mem' and x.get('own') and OPTREC.search(x['own'])}


def pairs_of(f):
    out = []

    def visit(n):
        if n is None:
            return
        if n['k'] in ('call', 'op', 'bin'):
            if not (n['k'] in ('op', 'bin') and n['op'] == '<<'):
                l, m = keylits(n), optfields(n)
                if len(l) == 1 and len(m) == 1:
                    out.append((f, n, l[0], next(iter(m))))
                    return
        for y in kids(n):
            visit(y)
    visit(f.j['b'])
    return out


def allkeys(f):
    """every literal that is used as a flag key in f"""
    out = set()
    for n in walk(f.j['b']):
        if n['k'] in ('call', 'op', 'bin') and not (n['k'] in ('op', 'bin') and n['op'] == '<<'):
            for k in keylits(n):
                out.add(k)
    return out


def options(P, R):
    ps = parsers(P)
    pairs = []
    keys = set()
    for f in ps:
        pairs += pairs_of(f)
        keys |= allkeys(f)
    R.need("option keys bound to option fields", len(pairs), 60)
    for k in sorted(KEYS - keys):
        R.violation("key:%s" % k, ps[0].where(), "the option '%s' is not read from the flags any more: scripts that set it are silently ignored" % k)
    R.count("accepted keys compared", len(KEYS))
    T = json.load(open(TABLE)).get("keys", {})
    fam = {}
    for f, n, k, m in pairs:
        fam.setdefault(m[0], {}).setdefault(m[1], []).append((f, n, k))
    bykey = {}
    for f, n, k, m in pairs:
        bykey.setdefault(k, set()).add(m)
    allnames = {}
    for f, n, k, m in pairs:
        allnames.setdefault(m[1], set()).add(m[0])
    for f, n, k, m in pairs:
        others = {x for x in bykey[k] if x != m and x[1] != m[1]}
        if others:
            R.violation("twice:%s" % k, f.where(n), "the key '%s' sets both %s and %s" % (k, m[1], ", ".join(sorted(x[1] for x in others))))
        elif k in T and m[1] != T[k] and T[k] in alive_fields(P):
            R.violation("other:%s" % k, f.where(n), "the key '%s' sets the option %s instead of %s" % (k, m[1], T[k]))
        elif k != m[1] and k in allnames and m[0] in allnames[k] | {m[0]} and k not in KEYS_ALIAS:
            R.violation("other:%s" % k, f.where(n), "the key '%s' sets the option %s although there is an option %s" % (k, m[1], k))
        else:
            R.ok("key %s -> %s::%s" % (k, m[0], m[1]))
    # R2
    own = {id(n) for _, n, _, _ in pairs}
    pnames = {f.name for f in ps}
    want = {m for _, _, _, m in pairs}
    where = {m: f.where(n) for f, n, _, m in pairs}
    used = set()
    for f in P.fns.values():
        if not f.j.get('b') or 'operator<<' in f.name or f.short in ('PrintTo', 'printTo', 'Print'):
            continue
        parse = f.name in pnames
        pid = {id(n) for g, n, _, _ in pairs if g is f} if parse else ()

        def visit(n, wr=False):
            if n is None or id(n) in pid:
                return
            if n['k'] in ('bin', 'op') and n['op'] == '=':
                a, b = (n['a'], n['b']) if n['k'] == 'bin' else (n['a'][0], n['a'][1] if len(n['a']) > 1 else None)
                if a is not None and a['k'] == 'mem' and a.get('own') and OPTREC.search(a['own']):
                    if a.get('o'):
                        visit(a['o'])
                    visit(b)
                    return
            if n['k'] == 'mem' and n.get('own'):
                used.add((n['own'], n['n']))
            for y in kids(n):
                visit(y)
        if parse and f not in ps:
            continue
        for i in f.j.get('inits') or []:
            visit(i)
        visit(f.j['b'])
    gen = {}
    for o, n in used:
        gen.setdefault((re.sub(r'<.*>', '', o), n), 1)
    for m in sorted(want):
        if (re.sub(r'<.*>', '', m[0]), m[1]) not in gen:
            R.violation("unused:%s" % m[1], where[m], "the option %s::%s is read from the flags but nothing depends on it" % m)
        else:
            R.ok("option %s::%s is used" % m)
    return ps, pairs


def alive_fields(P):
    if not hasattr(P, '_c08_alive'):
        P._c08_alive = set()
        for rn in P.recs:
            if OPTREC.search(rn):
                P._c08_alive |= {x['n'] for x in P.rec(rn).get('fields') or []}
    return P._c08_alive


KEYS_ALIAS = {'subset'}     # parsed for SELECTED_SUBSET: names a kind of selection, not the option 'subset'


# ------------------------------------------------------------------------------------------------ R3
NOVAL = object()


def xeval(e, flag, self_is, cur, helper=None):
    """value of a boolean expression over one three-valued flag; None if it depends on anything else"""
    e = strip(e)
    if e is None:
        return None
    k = e['k']
    if k == 'cast':
        return xeval(e['e'], flag, self_is, cur)
    if k in ('bool', 'int'):
        return bool(e['v'])
    if k == 'un' and e['op'] == '!':
        v = xeval(e['e'], flag, self_is, cur)
        return None if v is None else not v
    if k == 'bin' and e['op'] in ('&&', '||'):
        a, b = xeval(e['a'], flag, self_is, cur), xeval(e['b'], flag, self_is, cur)
        if e['op'] == '&&':
            if a is False or b is False:
                return False
            return None if a is None or b is None else True
        if a is True or b is True:
            return True
        return None if a is None or b is None else False
    if k == 'cond':
        c = xeval(e['c'], flag, self_is, cur)
        if c is None:
            return None
        return xeval(e['a'] if c else e['b'], flag, self_is, cur)
    if k == 'call':
        nm = cname(e)
        o = strip(e.get('o')) if e.get('o') else None
        isf = o is not None and o['k'] == 'call' and cname(o) == 'GetDefineFlagX'
        if isf and nm in ('IsTrue', 'IsFalse', 'IsMaybe'):
            return flag == nm[2:]
        if nm == 'GetDefineFlag':
            return flag == 'True'
    if self_is(e):
        return cur
    return None


def run_bool(s, flag, self_is, cur):
    """value of the option after the statement s"""
    if s is None:
        return cur
    k = s['k']
    if k == '{':
        for x in s['b']:
            cur = run_bool(x, flag, self_is, cur)
        return cur
    if k == 'if':
        c = xeval(s['c'], flag, self_is, cur)
        a, b = run_bool(s['th'], flag, self_is, cur), run_bool(s.get('el'), flag, self_is, cur)
        return a if a == b else (a if c else b) if c is not None else None
    if k in ('bin', 'op') and s['op'] == '=':
        l, r = (s['a'], s['b']) if k == 'bin' else s['a'][:2]
        if self_is(strip(l)):
            r = strip(r)
            if r['k'] == 'call' and cname(r) == 'GetDefineFlagX':
                return {'True': True, 'False': False}.get(flag, cur)
            return xeval(r, flag, self_is, cur)
    return cur


def polarity(P, R):
    """a flag that is set to true / false makes the option true / false; helpers with a default keep it when the flag is absent"""
    n = 0
    done = set()
    for f in P.fns.values():
        if not f.j.get('b') or 'GetDefineFlag' not in f.raw():
            continue
        bodies = []
        for x in walk(f.j['b']):
            if x['k'] in ('lam', 'inst') and x.get('b'):
                bodies.append(x['b'])
        bodies.append(f.j['b'])
        for b in bodies:
            stm = [x for x in b['b']] if b['k'] == '{' else [b]
            # statements (at any depth) that assign from a flag
            for x in walk(b, False):
                if x['k'] == '{':
                    stm += [y for y in x['b'] if y not in stm]
            for s in stm:
                if s is None or s['k'] not in ('if', 'bin', 'op') or 'GetDefineFlag' not in repr(s):
                    continue
                tg = None
                if s['k'] == 'if':
                    parts = [s['th'], s.get('el')]
                    asg = [p['b'][0] if p and p['k'] == '{' and len(p['b']) == 1 else p for p in parts if p]
                else:
                    asg = [s]
                if not all(q and q['k'] in ('bin', 'op') and q.get('op') == '=' for q in asg):
                    continue
                l = strip(asg[0]['a'] if asg[0]['k'] == 'bin' else asg[0]['a'][0])
                if l['k'] not in ('ref', 'mem'):
                    continue
                key = (l['k'], l['n'], l.get('id'))
                me = lambda e: e is not None and (e['k'], e.get('n'), e.get('id')) == key
                if (f.file, s.get('l') or asg[0].get('l'), l['n']) in done:
                    continue
                done.add((f.file, s.get('l') or asg[0].get('l'), l['n']))
                n += 1
                bad = []
                for cur in (True, False):
                    for flag, want in (('True', True), ('False', False)):
                        v = run_bool(s, flag, me, cur)
                        if v is not None and v != want:
                            bad.append("set to %s gives %s" % (flag.lower(), str(v).lower()))
                    if s['k'] == 'if':
                        v = run_bool(s, 'Maybe', me, cur)
                        if v is not None and v != cur:
                            bad.append("not set changes the default %s" % str(cur).lower())
                if bad:
                    R.violation("polarity:%s:%s" % (f.name.rsplit('::', 1)[-1], l['n']), f.where(asg[0]), "a boolean option that is %s" % ", ".join(sorted(set(bad))))
                else:
                    R.ok("polarity of %s in %s" % (l['n'], f.name))
    R.need("boolean flags evaluated", n, 8)


def parse_order(P, R, ps, pairs):
    """defaults before the flags before the adjustments; every parser of a derived record calls those of its bases"""
    ORD = {'SetDefaultOptions': 0, 'SetOptionsFromFlags': 1, 'ModifyOptions': 2}
    n = 0
    for f in P.fns.values():
        if not f.j.get('b') or f.key.startswith('P:') or not any(x in f.raw() for x in ORD):
            continue
        sq = [(ORD[cname(c)], c) for c in walk(f.j['b']) if c['k'] == 'call' and cname(c) in ORD]
        have = {o for o, _ in sq}
        if f.short in ORD or 1 not in have and len(have) < 2:
            continue
        n += 1
        near = set(have)
        for g in P.fns.values():
            if near != {0, 1, 2} and g.j.get('b') and f.key in g.raw():
                near |= {ORD[x] for x in ORD if x in g.raw()}
        for o in sorted({0, 1, 2} - near):
            R.violation("missing:%s" % f.short, f.where(), "%s reads the flags without %s" % (f.name, [x for x in ORD if ORD[x] == o][0]))
        for (a, c), (b, d) in zip(sq, sq[1:]):
            if b < a:
                R.violation("order:%s" % f.short, f.where(d), "%s runs after %s and undoes what the user set" % (cname(d), cname(c)))
        R.ok("%s: defaults, flags, adjustments" % f.name)
    R.need("functions that set up options", n, 1)
    # parsers call those of their bases
    m = 0
    byrec = {}
    for f in P.fns.values():
        if f.short == 'SetFromFlags' and f.j.get('b') and not f.key.startswith('P:') and f.j.get('rec') and 'SpecOpt' not in f.name:
            byrec[f.j['rec']] = f
    for rec, f in sorted(byrec.items()):
        r = P.rec(rec)
        if r is None:
            continue
        st, bases = [b for b in r.get('bases') or []], []
        while st:
            b = st.pop()
            b = b[0] if isinstance(b, (list, tuple)) else b
            if b in byrec:
                bases.append(byrec[b])
            else:
                q = P.rec(b)
                st += list(q.get('bases') or []) if q else []
        called = {c.get('m') for c in walk(f.j['b']) if c['k'] == 'call'}
        pn = {p.get('n') for p in f.j['ps']}
        for b in bases:
            m += 1
            if b.key not in called:
                R.violation("base:%s" % b.name, f.where(), "%s does not read the options of its base %s" % (f.name, b.name))
                continue
            R.ok("%s calls %s" % (f.name, b.name))
    R.need("option records whose bases are parsed too", m, 4)
    # every access to the flags uses the prefix
    for f in ps:
        pre = next((p for p in f.j['ps'] if p.get('n') == 'prefix'), None)
        if pre is None:
            continue
        lams = {}
        for x in walk(f.j['b'], False):
            if x['k'] == 'decl':
                for v in x['d']:
                    if v and v.get('i') is not None and v['i'].get('k') == 'lam':
                        lams[v['id']] = v['i'], any(y['k'] == 'ref' and y['n'] == 'prefix' for y in walk(v['i']))
        def has(n):
            for y in walk(n):
                if y['k'] == 'ref' and y['n'] == 'prefix':
                    return True
                if y['k'] == 'ref' and y.get('id') in lams and lams[y['id']][1]:
                    return True
            return False
        for g, n_, k, fld in pairs:
            if g is f and not k.startswith('ngs_amg_') and not has(n_):
                R.violation("prefix:%s" % k, f.where(n_), "the key '%s' is looked up without the prefix that users write" % k)
            elif g is f:
                R.ok()


def overwritten(P, R, ps, pairs):
    """what the flags say is not replaced unconditionally afterwards"""
    want = {m[1] for _, _, _, m in pairs}
    n = 0
    seen = set()
    for f in P.fns.values():
        if not f.j.get('b') or f.key.startswith('P:'):
            continue
        if not (PARSER.search(f.short) or f.short == 'ModifyOptions') or (f.file, f.j['l']) in seen or 'SpecOpt' in f.name:
            continue
        seen.add((f.file, f.j['l']))
        n += 1
        top = f.j['b']['b'] if f.j['b']['k'] == '{' else [f.j['b']]
        flat = []

        def unroll(ss):
            for s in ss:
                if s and s['k'] == '{':
                    unroll(s['b'])
                elif s:
                    flat.append(s)
        unroll(top)
        for i, s in enumerate(flat):
            if s['k'] not in ('bin', 'op') or s.get('op') != '=':
                continue
            l, r = (s['a'], s['b']) if s['k'] == 'bin' else s['a'][:2]
            l = strip(l)
            if l['k'] != 'mem' or l['n'] not in want or not OPTREC.search(l.get('own') or ''):
                continue
            if any(y['k'] in ('call', 'ref', 'mem') and y['k'] != 'mem' for y in walk(r)):
                continue
            if f.short == 'ModifyOptions' or any(l['n'] in {q[1] for q in optfields(t)} for t in flat[:i]) or \
                    any(c['k'] == 'call' and cname(c) == 'SetFromFlags' and c.get('o') is not None and c['o']['k'] == 'this' for t in flat[:i] for c in walk(t)):
                R.violation("overwritten:%s" % l['n'], f.where(s), "the option %s is replaced by a constant after it was read from the flags" % l['n'])
    R.count("functions searched for overwritten options", n)


def levels(P, R):
    """per-level options are asked for the level that is being set up"""
    n = 0
    for f in P.fns.values():
        if not f.j.get('b') or f.key.startswith('P:') or 'GetOpt' not in f.raw() or 'SpecOpt' in f.name:
            continue
        for c in walk(f.j['b']):
            if c['k'] != 'call' or cname(c) != 'GetOpt' or 'SpecOpt' not in (c.get('f') or '') or not c['a']:
                continue
            n += 1
            a = strip(c['a'][0])
            while a['k'] == 'cast':
                a = strip(a['e'])
            fn = re.sub(r'<.*>', '', f.name).split('::(')[0]
            if a['k'] == 'int':
                if not (a['v'] == 0 and any(z in f.name for z in CONST0)):
                    R.violation("level:%s" % f.short, f.where(c), "a per-level option is asked for level %s whatever the level is" % a['v'])
                else:
                    R.ok()
            elif a['k'] in ('bin', 'op') and not (a['k'] == 'op' and a['op'] in ('[]', '*', '->', '()')):
                R.violation("level:%s" % f.short, f.where(c), "a per-level option is asked for a level computed by '%s'" % a['op'])
            else:
                R.ok()
    R.need("per-level options", n, 60)
    for f in P.fns.values():
        if not f.j.get('b') or f.key.startswith('P:') or 'default_opt' not in f.raw() or 'SpecOpt' in f.name or 'operator<<' in f.name:
            continue
        if f.short in ('ModifyOptions', 'SetDefaultOptions') or PARSER.search(f.short):
            continue
        for x in walk(f.j['b']):
            if x['k'] == 'mem' and x['n'] == 'default_opt':
                R.violation("default:%s" % f.short, f.where(x), "a per-level option is read without the values that were set for individual levels")
    # SpecOpt::GetOpt itself: the value of the level where there is one, the default elsewhere
    k = 0
    for f in P.fns.values():
        if f.short != 'GetOpt' or 'SpecOpt' not in f.name or f.key.startswith('P:') or not f.j.get('b'):
            continue
        bad = None
        for lev, size in ((0, 0), (0, 1), (1, 1), (1, 2), (2, 1)):
            r = lookup(f.j['b'], f.j['ps'][0]['id'], lev, size)
            if r is None:
                bad = None
                break
            want = 'spec' if lev < size else 'default'
            if r != want:
                bad = bad or "with %d values for levels, level %d gets the %s" % (size, lev, r)
        k += 1
        if bad:
            R.violation("getopt", f.where(), "SpecOpt::GetOpt: " + bad)
        else:
            R.ok("GetOpt of %s" % f.name)
    R.need("instances of SpecOpt::GetOpt", k, 3)


def lookup(n, pid, lev, size):
    """'spec' / 'default' / 'out of range' / None: what GetOpt returns for the level when there are size entries"""
    def val(e):
        e = strip(e)
        if e['k'] == 'cast':
            return val(e['e'])
        if e['k'] == 'int':
            return e['v']
        if e['k'] == 'ref' and e.get('id') == pid:
            return lev
        if e['k'] == 'call' and cname(e) == 'Size':
            return size
        if e['k'] == 'bin':
            a, b = val(e['a']), val(e['b'])
            if a is None or b is None:
                return None
            return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b, '==': a == b, '!=': a != b, '+': a + b, '-': a - b, '&&': bool(a and b), '||': bool(a or b)}.get(e['op'])
        if e['k'] == 'un' and e['op'] == '!':
            v = val(e['e'])
            return None if v is None else not v
        return None

    def res(e):
        e = strip(e)
        if e['k'] == 'cast':
            return res(e['e'])
        if e['k'] == 'cond':
            c = val(e['c'])
            return None if c is None else res(e['a'] if c else e['b'])
        if e['k'] in ('op', 'sub') or e['k'] == 'call':
            if 'spec_opt' in repr(e):
                a = e['a'][-1] if e.get('a') and isinstance(e['a'], list) else e.get('b')
                i = val(a) if a else None
                if i is None:
                    return None
                return 'spec' if i == lev and lev < size else 'value of another level' if i < size else 'value past the end'
        if e['k'] == 'mem' and e['n'] == 'default_opt':
            return 'default'
        return None

    def stm(s):
        if s is None:
            return 'go'
        if s['k'] == '{':
            for x in s['b']:
                r = stm(x)
                if r != 'go':
                    return r
            return 'go'
        if s['k'] == 'ret':
            return res(s['e'])
        if s['k'] == 'if':
            c = val(s['c'])
            return None if c is None else stm(s['th'] if c else s.get('el'))
        return None
    r = stm(n)
    return None if r == 'go' else r


# functions that deal with the finest level only
CONST0 = ('::BuildAMGMat', '::EmbeddedSProl')      # smoother for the space itself / embedding of the space into level 0


# ------------------------------------------------------------------------------------------------ R7
TABLE = os.path.join(os.path.dirname(os.path.dirname(__file__)), 'tables', 'c08_uses.json')


def fname(f):
    s = f.name
    while '<' in s:
        t = re.sub(r'<[^<>]*>', '', s)
        if t == s:
            break
        s = t
    return re.sub(r'::\(anonymous.*?\)', '', s)


def uses(P):
    """function -> option fields whose value it reads, and how they flow into arguments"""
    rd, sink = {}, {}
    for f in P.fns.values():
        if not f.j.get('b') or f.key.startswith('P:') or 'operator<<' in f.name or PARSER.search(f.short) or f.short in ('PrintTo', 'printTo', 'Print', 'SetDefaultOptions'):
            continue
        nodes = list(walk(f.j['b']))
        for i in f.j.get('inits') or []:
            nodes += list(walk(i))
        refs = {}
        for n in nodes:
            if n['k'] == 'ref' and n.get('id') is not None:
                refs[n['id']] = refs.get(n['id'], 0) + 1
        dead = set()
        bound = {}
        for n in nodes:
            if n['k'] == 'decl':
                for v in n['d']:
                    if v and v.get('i') is not None and v.get('id') is not None:
                        m = {q[1] for q in optfields(v['i'])}
                        if m and not refs.get(v['id']):
                            dead |= {id(x) for x in walk(v['i'])}
                        elif m:
                            bound[v['id']] = m
        mine = set()
        for n in nodes:
            if n['k'] == 'mem' and n.get('own') and OPTREC.search(n['own']) and id(n) not in dead:
                mine.add(n['n'])
        if mine:
            rd.setdefault(fname(f), set()).update(mine)
        for c in nodes:
            if c.get('k') not in ('call', 'ctor') or not c.get('a'):
                continue
            g = P.fns.get(c.get('m'))
            if c['k'] == 'call' and cname(c) in ('make_shared', 'make_unique') and c.get('ta'):
                tgt = re.sub(r'<.*>', '', f.ty(c['ta'][0]))
            elif g is not None:
                tgt = fname(g)
            else:
                continue
            for i, a in enumerate(c['a']):
                m = {q[1] for q in optfields(a)}
                for y in walk(a):
                    if y['k'] == 'ref' and y.get('id') in bound:
                        m |= bound[y['id']]
                b = strip(a)
                lit = b['k'] in ('bool', 'int', 'flt', 'enum') or (b['k'] == 'darg') or (a['k'] == 'darg')
                sink.setdefault((fname(f), tgt, i), []).append((frozenset(m), lit, f, c))
    return rd, sink


def literals(f, c, truth, env, depth=0):
    """what is known about options when the condition has that value"""
    r = set()
    if c is None or depth > 6:
        return r
    while c['k'] in ('cast',) or c['k'] == 'ctor' and len(c.get('a') or []) == 1:
        c = c.get('e') or c['a'][0]
    k = c['k']
    if k == 'un' and c['op'] == '!':
        return literals(f, c['e'], not truth, env, depth + 1)
    if k == 'bin' and (c['op'], truth) in (('&&', True), ('||', False)):
        return literals(f, c['a'], truth, env, depth + 1) | literals(f, c['b'], truth, env, depth + 1)
    if k == 'bin' and c['op'] in ('==', '!='):
        for x, y in ((c['a'], c['b']), (c['b'], c['a'])):
            while y['k'] == 'cast':
                y = y['e']
            o = option_of(x)
            if o and y['k'] == 'enum':
                r.add((o + '==' + y['n'], truth == (c['op'] == '==')))
        return r
    if k == 'ref' and c.get('id') in env:
        return literals(f, env[c['id']], truth, env, depth + 1)
    o = option_of(c)
    if o and f.ty(c.get('t')).replace('const ', '') in ('bool', 'bool &', 'const bool &', ''):
        r.add((o, truth))
    return r


def option_of(e):
    while e['k'] == 'cast':
        e = e['e']
    if e['k'] == 'mem' and e.get('own') and OPTREC.search(e['own']):
        return e['n']
    if e['k'] == 'call' and cname(e) == 'GetOpt' and e.get('o') and e['o']['k'] == 'mem' and OPTREC.search(e['o'].get('own', '')):
        return e['o']['n']
    return None


def leaves(s):
    """control does not go on behind the statement"""
    if s is None:
        return False
    if s['k'] in ('ret', 'brk', 'cont', 'throw'):
        return True
    if s['k'] == '{':
        return bool(s['b']) and leaves(s['b'][-1])
    return s['k'] == 'if' and leaves(s['th']) and leaves(s.get('el'))


def guards(P):
    """function -> callee -> what is known about options at all of its calls"""
    G = {}
    for f in P.fns.values():
        if not f.j.get('b') or f.key.startswith('P:') or '"own"' not in f.raw() or PARSER.search(f.short):
            continue
        if not any(n['k'] == 'mem' and n.get('own') and OPTREC.search(n['own']) for n in walk(f.j['b'])):
            continue
        env, written = {}, set()
        for n in walk(f.j['b']):
            if n['k'] == 'decl':
                for v in n['d']:
                    if v and v.get('i') is not None and f.ty(v['t']).replace('const ', '') == 'bool':
                        env[v['id']] = v['i']
            if n['k'] in ('bin', 'op') and n.get('op', '').endswith('=') and n['op'] not in ('==', '!=', '<=', '>='):
                x = n['a'] if n['k'] == 'bin' else n['a'][0]
                if x.get('k') == 'ref':
                    written.add(x.get('id'))
        for i in written:
            env.pop(i, None)
        acc = {}

        def expr(e, lits):
            if e is None:
                return
            k = e['k']
            if k == 'bin' and e['op'] in ('&&', '||'):
                expr(e['a'], lits)
                expr(e['b'], lits | literals(f, e['a'], e['op'] == '&&', env))
                return
            if k == 'cond':
                expr(e['c'], lits)
                expr(e['a'], lits | literals(f, e['c'], True, env))
                expr(e['b'], lits | literals(f, e['c'], False, env))
                return
            if k == 'lam':
                for b in [x['b'] for x in e.get('insts', [])] or [e.get('b')]:
                    stmt(b, lits)
                return
            if k == 'call':
                t = None
                if cname(e) in ('make_shared', 'make_unique') and e.get('ta'):
                    t = re.sub(r'<.*>', '', f.ty(e['ta'][0]))
                elif e.get('f', '').startswith('amg::') and cname(e) not in ('GetOpt',):
                    t = re.sub(r'<.*>', '', e['f'])
                if t:
                    acc[t] = acc[t] & lits if t in acc else frozenset(lits)
            for x in kids(e):
                expr(x, lits)

        def stmt(s, lits):
            if s is None:
                return
            k = s['k']
            if k == '{':
                for x in s['b']:
                    stmt(x, lits)
                    if x is not None and x['k'] == 'if':
                        if leaves(x['th']):
                            lits = lits | literals(f, x['c'], False, env)
                        if x.get('el') is not None and leaves(x['el']):
                            lits = lits | literals(f, x['c'], True, env)
            elif k == 'if':
                expr(s.get('init'), lits)
                expr(s.get('c'), lits)
                stmt(s['th'], lits | literals(f, s.get('c'), True, env))
                stmt(s.get('el'), lits | literals(f, s.get('c'), False, env))
            elif k in ('while', 'for', 'do', 'rfor', 'sw', 'case', 'default', 'try'):
                for x in kids(s):
                    stmt(x, lits)
            else:
                expr(s, lits)
        stmt(f.j['b'], frozenset())
        g = G.setdefault(fname(f), {})
        for t, l in acc.items():
            g[t] = g[t] & l if t in g else l
    return G


def guarded(P, R):
    T = json.load(open(TABLE))
    G = guards(P)
    n = 0
    for fn, g in T["guards"].items():
        for t, l in g.items():
            now = G.get(fn, {}).get(t)
            if now is None:
                continue
            base = {(o, v) for o, v in l}
            for o, v in base:
                n += 1
                if (o, not v) in now:
                    R.violation("inverted:%s:%s:%s" % (fn, t, o), fn, "%s runs %s if the option %s is %s, it belongs to the opposite" % (fn, t, o, 'not set' if v else 'set'))
                else:
                    R.ok()
            for o, v in now - base:
                if (o, not v) not in base and o.split('==')[0] not in T["reads"].get(fn, ()):
                    R.violation("extra:%s:%s:%s" % (fn, t, o), fn, "%s runs %s only if the option %s is %s, it has nothing to do with it" % (fn, t, o, 'set' if v else 'not set'))
    R.need("calls that depend on a switch", n, 30)


def freeze(P):
    rd, sink = uses(P)
    s = {}
    for (fn, tgt, i), l in sink.items():
        m = [x[0] for x in l]
        if all(m) and any(m):
            o = frozenset.intersection(*m)
            if o:
                s["%s > %s#%d" % (fn, tgt, i)] = sorted(o)
    os.makedirs(os.path.dirname(TABLE), exist_ok=True)
    kf = {}
    for f in parsers(P):
        for _, _, k, m in pairs_of(f):
            kf.setdefault(k, set()).add(m[1])
    gs = {fn: {t: sorted(l) for t, l in sorted(g.items())} for fn, g in sorted(guards(P).items()) if g}
    json.dump({"guards": gs, "keys": {k: min(v) for k, v in sorted(kf.items()) if len(v) == 1}, "reads": {k: sorted(v) for k, v in sorted(rd.items())}, "sinks": dict(sorted(s.items())),
               "functions": sorted({fn for fn, _, _ in sink})}, open(TABLE, 'w'), indent=0)


def kept(P, R):
    T = json.load(open(TABLE))
    rd, sink = uses(P)
    # closures by name
    G = CallGraph(P)
    byname, out, inn = {}, {}, {}
    for f in P.fns.values():
        if f.j.get('b') and not f.key.startswith('P:'):
            byname.setdefault(fname(f), []).append(f)
    kn = {f.key: n for n, fs in byname.items() for f in fs}
    for n, fs in byname.items():
        for f in fs:
            for k in G.callees(f):
                if k in kn and kn[k] != n:
                    out.setdefault(n, set()).add(kn[k])
                    inn.setdefault(kn[k], set()).add(n)

    def closure(n, up=True):
        # the function, its helpers (two levels), and its direct callers with theirs
        s = {n} | out.get(n, set())
        for c in list(out.get(n, ())):
            s |= out.get(c, set())
        if up:
            for c in inn.get(n, ()):
                s |= {c} | out.get(c, set())
        return s
    nck = 0
    alive = alive_fields(P)
    for n, opts in T["reads"].items():
        if n not in byname:
            continue
        mine = rd.get(n, set())
        cl = None
        for o in opts:
            if o not in alive:
                continue
            nck += 1
            if o in mine:
                R.ok("%s respects %s" % (n, o))
                continue
            if cl is None:
                cl = set()
                base = set(T["reads"])
                for c in closure(n):
                    # a helper that already read the option for itself does not answer for this one
                    cl |= {x for x in rd.get(c, set()) if x not in T["reads"].get(c, ())}
            if o in cl:
                R.ok()
            else:
                R.violation("lost:%s:%s" % (n, o), byname[n][0].where(), "%s does not depend on the option %s any more" % (n, o))
    R.need("dependences of functions on options", nck, 150)
    nsk = 0
    bysink = {}
    for k, o in T["sinks"].items():
        fn, t = k.split(" > ")
        bysink.setdefault(t, {})[fn] = o
    for (fn, tgt, i), l in sink.items():
        tab = bysink.get("%s#%d" % (tgt, i))
        if not tab:
            continue
        o = [x for x in tab.get(fn) or () if x in alive] or None
        if o is None and fn not in T["functions"]:
            # a helper that was split off
            for c in inn.get(fn, ()):
                o = o or tab.get(c)
        if not o:
            continue
        for m, lit, f, c in l:
            nsk += 1
            if lit:
                R.violation("constant:%s#%d:%s" % (tgt, i, f.short), f.where(c), "%s gets a constant where the option %s belongs" % (tgt, "/".join(o)))
            elif m and not (m & set(o)):
                R.violation("wrong:%s#%d:%s" % (tgt, i, f.short), f.where(c), "%s gets the option %s where %s belongs" % (tgt, "/".join(sorted(m)), "/".join(o)))
            else:
                R.ok()
    R.count("arguments that carry an option", nsk)


# ------------------------------------------------------------------------------------------------ R4
def norm(s):
    return re.sub(r'[_\W]', '', s.lower())


def match(s, e):
    a, b = norm(s), norm(e.rsplit('::', 1)[-1])
    if a == b:
        return 2
    t = re.split(r'[_\W]+', e.rsplit('::', 1)[-1].lower())
    if a in t or (len(a) >= 3 and b.startswith(a)) or (len(b) >= 3 and a.startswith(b)):
        return 1
    return 0


def elements(f, e, env, st=None):
    """list of string literals / enumerator names an expression enumerates"""
    e = strip(e)
    while e is not None and e['k'] in ('cast', 'ctor', 'call') and e['k'] != 'ilist':
        if e['k'] == 'cast':
            e = strip(e['e'])
            continue
        a = [x for x in (e.get('a') or []) if x['k'] != 'darg']
        if len(a) == 1 and e['k'] == 'ctor':
            if a[0]['k'] in ('enum', 'str'):
                break
            e = strip(a[0])
            continue
        break
    if e is None:
        return None
    if e['k'] == 'ref' and e.get('id') in env:
        return env[e['id']]
    lst = e.get('a') if e['k'] == 'ilist' else None
    if lst is None:
        il = [x for x in walk(e, False) if x['k'] == 'ilist']
        if len(il) == 1:
            lst = il[0].get('a')
    if lst is None:
        return None
    out = []
    for x in lst:
        v = [y for y in walk(x, False) if y['k'] in ('str', 'enum')]
        if len(v) != 1:
            return None
        out.append((v[0]['k'], v[0].get('v') if v[0]['k'] == 'str' else v[0]['n']))
    return out


def enum_tables(P, R, ps):
    ntab = 0
    for f in ps:
        env = {}
        for n in walk(f.j['b'], False):
            if n['k'] == 'decl':
                for v in n['d']:
                    if v and v.get('i') is not None and v.get('id') is not None:
                        el = elements(f, v['i'], env)
                        if el is not None:
                            env[v['id']] = list(el)
            if n['k'] == 'call' and cname(n) == 'Append' and n.get('o') and n['o']['k'] == 'ref' and n['o'].get('id') in env:
                v = [y for y in walk(n['a'][0], False) if y['k'] in ('str', 'enum')]
                if len(v) == 1:
                    env[n['o']['id']].append((v[0]['k'], v[0].get('v') if v[0]['k'] == 'str' else v[0]['n']))
                else:
                    del env[n['o']['id']]
            if n['k'] == 'call':
                ls = [elements(f, a, env) for a in n['a']]
                ss = [l for l in ls if l and all(k == 'str' for k, _ in l)]
                es = [l for l in ls if l and all(k == 'enum' for k, _ in l)]
                if len(ss) == 1 and len(es) == 1:
                    S, E = [v for _, v in ss[0]], [v for _, v in es[0]]
                    ntab += 1
                    if len(S) != len(E):
                        R.violation("table:%s" % ",".join(S[:2]), f.where(n), "%d names for %d values: %s / %s" % (len(S), len(E), S, E))
                        continue
                    for i, s in enumerate(S):
                        m = match(s, E[i])
                        better = [e for e in E if match(s, e) > m]
                        if better:
                            R.violation("table:%s" % s, f.where(n), "the name '%s' selects %s instead of %s" % (s, E[i], better[0]))
                        else:
                            R.ok("'%s' selects %s" % (s, E[i]))
    R.need("tables of option names and enumerators", ntab, 8)


def shape(n):
    """structure of a statement without positions"""
    if isinstance(n, dict):
        return tuple((k, shape(v)) for k, v in sorted(n.items()) if k not in ('l', 'id', 'fid', 'e_l'))
    if isinstance(n, list):
        return tuple(shape(x) for x in n)
    return n


def dispatch(P, R):
    nsw = 0
    seen = set()
    for f in P.fns.values():
        if not f.j.get('b') or f.key.startswith('P:') or 'operator<<' in f.name:
            continue
        for n in walk(f.j['b']):
            if n['k'] != 'sw':
                continue
            t = f.ty(n['c'].get('t')) if n['c'].get('t') is not None else ''
            body = n['b']['b'] if n['b'] and n['b']['k'] == '{' else []
            if (f.file, n.get('l')) in seen:
                continue
            seen.add((f.file, n.get('l')))
            groups = []
            cur = None
            for s in body:
                x = s
                labels = []
                while x is not None and x['k'] in ('case', 'default'):
                    labels.append(x['v'] if x['k'] == 'case' else None)
                    x = x.get('b')
                if labels:
                    cur = [labels, []]
                    groups.append(cur)
                    if x is not None:
                        cur[1].append(x)
                elif cur is not None:
                    cur[1].append(s)
            en = []
            for labels, st in groups:
                names = [l['n'] for l in labels if l is not None and l.get('k') == 'enum']
                if names:
                    en.append((names, st))
            if len(en) < 2:
                continue
            nsw += 1
            by = {}
            for names, st in en:
                acts = [s for s in st if any(y['k'] in ('call', 'op') and not y.get('f', '').startswith('std::') for y in walk(s))]
                if not acts or any(y['k'] == 'throw' for s in st for y in walk(s)):
                    continue
                if all(y['k'] not in ('call', 'ctor') for s in st for y in walk(s)):
                    continue
                by.setdefault(repr(shape(st)), []).append(names[0])
            for k, v in by.items():
                if len(v) > 1 and not (v[1].endswith('DYNBGS') and f.name.endswith('BaseAMGPC::BuildSmoother')):
                    # the exception: no implementation of SelectSmoother that this function sees ever returns DYNBGS
                    R.violation("same:%s" % v[1].rsplit('::', 1)[-1], f.where(n), "selecting %s does exactly what selecting %s does" % (v[1], v[0]))
            R.ok("dispatch over %s" % t)
    R.count("dispatches over enumerations", nsw)


# ------------------------------------------------------------------------------------------------ R5
def ctor_of(P, rec, args, f):
    c = []
    q = rec
    for g in ctor_index(P).get(q, []):
        ps = g.j['ps']
        if len(args) <= len(ps):
            c.append(g)
    c = [g for g in c if len(g.j['ps']) == min(len(x.j['ps']) for x in c)]
    return c[0] if len(c) == 1 else None


def ctor_index(P):
    if not hasattr(P, '_c08_ctor'):
        d = {}
        for g in P.fns.values():
            if g.j.get('ctor') and not g.key.startswith('P:') and 'C2' not in g.key[:0]:
                if g.j['ps'] and not any(x.j['ps'] == g.j['ps'] for x in d.get(g.j['rec'], [])):
                    d.setdefault(g.j['rec'], []).append(g)
        P._c08_ctor = d
    return P._c08_ctor


def permuted(P, R):
    straight, hits = set(), []
    n = 0
    for f in P.fns.values():
        if not f.j.get('b') or f.key.startswith('P:'):
            continue
        nodes = list(walk(f.j['b']))
        for i in f.j.get('inits') or []:
            nodes += list(walk(i))
        for c in nodes:
            if c.get('k') not in ('call', 'ctor') or len(c.get('a') or []) < 2:
                continue
            g = P.fns.get(c.get('m'))
            if g is None and c['k'] == 'call' and cname(c) in ('make_shared', 'make_unique') and c.get('ta'):
                g = ctor_of(P, f.ty(c['ta'][0]), c['a'], f)
            if g is None:
                continue
            a = c['a']
            ps = [p.get('n') for p in g.j['ps']]
            ty = [g.ty(p['t']) for p in g.j['ps']]
            an = [argname(x) for x in a]
            m = min(len(an), len(ps))
            if sum(1 for x in an[:m] if x) < 1:
                continue
            n += 1
            for i in range(m):
                if not an[i] or not ps[i]:
                    continue
                if sim(an[i], ps[i]) >= 0.5:
                    straight.add((f.file, f.short, g.name, an[i], ps[i]))
                for j in range(m):
                    if i == j or not ps[j] or not compat(ty[i], ty[j]):
                        continue
                    s = sim(an[i], ps[j])
                    if s >= 0.5 and s > sim(an[i], ps[i]) + 0.3 and not (an[j] and sim(an[j], ps[j]) >= s):
                        hits.append((f, c, g, an[i], ps[i], ps[j]))
    for f, c, g, x, p, q in hits:
        if (f.file, f.short, g.name, x, q) in straight:
            R.count("argument orders used both ways (symmetric assembly)")
            continue
        R.violation("order:%s:%s:%s" % (f.short, g.short, x), f.where(c), "%s is passed for the parameter '%s' of %s, which has a parameter '%s'" % (x, p, g.name, q))
    R.need("calls with named arguments", n, 2000)
    # member initialisers
    m = 0
    for f in P.fns.values():
        ini = [i for i in f.j.get('inits') or [] if i.get('m') and i.get('w')]
        if len(ini) < 2 or f.j.get('cp') or f.j.get('mv'):
            continue
        pn = {p.get('n'): f.ty(p['t']) for p in f.j['ps'] if p.get('n') and p.get('t') is not None}
        src = {}
        for i in ini:
            e = i.get('i')
            x = argname(e) if e else None
            if x in pn:
                src[i['m']] = x
        for a, x in src.items():
            m += 1
            for b, y in src.items():
                if a != b and sim(x, b) >= 0.5 and sim(x, b) > sim(x, a) + 0.3 and sim(y, b) < sim(x, b) and compat(pn[x], pn[y]):
                    R.violation("init:%s:%s" % (f.name.rsplit('::', 1)[-1], a), f.where(), "the member '%s' is initialised with the parameter '%s', the member '%s' with '%s'" % (a, x, b, y))
    R.count("member initialisers from parameters", m)


# ------------------------------------------------------------------------------------------------ R6
def bindings(P, R):
    nb = 0
    for f in P.fns.values():
        if not f.j.get('b') or f.key.startswith('P:'):
            continue
        for c in walk(f.j['b']):
            if c.get('k') != 'call' or cname(c) not in ('def', 'def_static') or 'pybind11' not in c.get('f', ''):
                continue
            args, lam = [], None
            for a in c['a'][1:] if c['a'] and c['a'][0]['k'] == 'str' else c['a']:
                l = [x for x in walk(a, False) if x['k'] == 'lam']
                if l:
                    lam = lam or l[0]
                    continue
                s = [x['v'] for x in walk(a, False) if x['k'] == 'str']
                isarg = any('pybind11::arg' in (x.get('f') or '') for x in walk(a, False)) or \
                    any(x.get('t') is not None and 'pybind11::arg' in f.ty(x['t']) for x in walk(a, False))
                if isarg and s:
                    args.append(s[0])
            if lam is None:
                continue
            ps = lam.get('ps') or []
            used = {x.get('id') for x in walk(lam.get('b') or {'k': '{', 'b': []}) if x['k'] == 'ref'}
            ps = [p for p in ps if not re.search(r'pybind11::(kwargs|args)', f.ty(p['t']) if p.get('t') is not None else '')]
            nm = [p.get('n') for p in ps]
            tag = next((x['v'] for x in c['a'][:1] if x['k'] == 'str'), '__init__')
            nb += 1
            off = len(ps) - len(args)
            if args and off not in (0, 1):
                R.violation("args:%s" % tag, f.where(c), "%d argument names for a function of %d parameters" % (len(args), len(ps)))
                continue
            for i, p in enumerate(ps):
                if p.get('n') and p.get('id') not in used and (i >= off if args else i > 0):
                    R.violation("unused-parameter:%s:%s" % (tag, p['n']), f.where(c), "the parameter '%s' of the Python function %s has no effect" % (args[i - off] if args else p['n'], tag))
            for i, a in enumerate(args):
                p = nm[i + off]
                for j, b in enumerate(nm[off:]):
                    if j != i and p and b and sim(a, b) >= 0.5 and sim(a, b) > sim(a, p) + 0.3 and sim(args[j], b) < sim(a, b):
                        R.violation("args:%s:%s" % (tag, a), f.where(c), "the Python argument '%s' of %s arrives in the parameter '%s' although there is a parameter '%s'" % (a, tag, p, b))
            R.ok("%s(%s)" % (tag, ", ".join(args)))
    R.need("Python functions with a bound lambda", nb, 60)


def run(P, R):
    R.expl.append(" ".join(l.strip() for l in __doc__.strip().splitlines()))
    ps, pairs = options(P, R)
    polarity(P, R)
    parse_order(P, R, ps, pairs)
    overwritten(P, R, ps, pairs)
    levels(P, R)
    enum_tables(P, R, ps)
    dispatch(P, R)
    permuted(P, R)
    bindings(P, R)
    kept(P, R)
    guarded(P, R)
