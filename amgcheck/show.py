"""short readable rendering of an expression for reports"""


def show(n, d=0):
    if n is None:
        return ''
    if d > 8:
        return '..'
    k = n['k']
    s = lambda x: show(x, d + 1)
    if k == 'ref':
        return n['n'].rsplit('::', 1)[-1]
    if k in ('enum', 'fref'):
        return (n.get('q') or n.get('n') or '').rsplit('::', 1)[-1]
    if k == 'mem':
        return (s(n['o']) + '.' if n['o'] and n['o']['k'] != 'this' else '') + n['n']
    if k == 'this':
        return 'this'
    if k in ('int', 'flt', 'bool', 'chr', 'str'):
        return str(n.get('v'))
    if k == 'nullptr':
        return 'nullptr'
    if k == 'bin':
        return '(%s %s %s)' % (s(n['a']), n['op'], s(n['b']))
    if k == 'un':
        return '%s%s' % (n['op'].replace('p', ''), s(n['e']))
    if k == 'cond':
        return '(%s ? %s : %s)' % (s(n['c']), s(n['a']), s(n['b']))
    if k == 'sub':
        return '%s[%s]' % (s(n['o']), s(n['i']))
    if k == 'op':
        a = n['a']
        if n['op'] == '[]' and len(a) == 2:
            return '%s[%s]' % (s(a[0]), s(a[1]))
        if n['op'] == '()':
            return '%s(%s)' % (s(a[0]), ', '.join(map(s, a[1:])))
        if n['op'] in ('->', '*') and len(a) == 1:
            return s(a[0])
        if len(a) == 2:
            return '(%s %s %s)' % (s(a[0]), n['op'], s(a[1]))
        return '%s(%s)' % (n['op'], ', '.join(map(s, a)))
    if k == 'call':
        o = n.get('o')
        return '%s%s(%s)' % (s(o) + '.' if o and o['k'] != 'this' else '', n.get('f', s(n.get('fe')) if n.get('fe') else '?').rsplit('::', 1)[-1], ', '.join(map(s, n.get('a', []))))
    if k == 'ctor':
        if len(n['a']) == 1:
            return s(n['a'][0])
        return '%s(%s)' % (n.get('f', '').rsplit('::', 1)[-1], ', '.join(map(s, n['a'])))
    if k in ('cast', 'darg'):
        return s(n.get('e'))
    if k == 'lam':
        return '[lambda]'
    if k == 'var':
        return '%s = %s' % (n['n'], s(n.get('i')))
    return '<%s>' % k
