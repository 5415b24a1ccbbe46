"""Loading of the THIR dumps written by the cvdump driver."""
import json, os, re, hashlib
import terms

_LT = [(re.compile(r"for<('\w+,? ?)+> ?"), ''), (re.compile(r"&'\w+ "), '&'), (re.compile(r"<'\w+>"), ''), (re.compile(r"<(?:'\w+, )+"), '<'),
       (re.compile(r"::<'\w+>"), ''), (re.compile(r", '\w+(?=[,>\]])"), ''), (re.compile(r" \+ '\w+"), ''),
       (re.compile(r"\{closure@[^{}]*\}"), '{closure}'), (re.compile(r"\{(async block|coroutine)@[^{}]*\}"), '{coroutine}')]


def nolt(s):
    for r, x in _LT:
        s = r.sub(x, s)
    return s


_shortcache = {}


def strip_generics(p):
    """remove every balanced <...> group that follows `::` (turbofish) ; keep `<impl ..>`/`<T as U>` heads out"""
    out, d = [], 0
    i = 0
    while i < len(p):
        c = p[i]
        if c == '<':
            d += 1
        elif c == '>' and p[i - 1] != '-':
            d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    q = ''.join(out)
    while '::::' in q:
        q = q.replace('::::', '::')
    return q.strip(':')


def short(p):
    r = _shortcache.get(p)
    if r is None:
        if p.startswith('<') and ' as ' in p:
            # <T as Trait>::m  -> Trait::m
            d = 0
            for i, c in enumerate(p):
                if c == '<':
                    d += 1
                elif c == '>' and p[i - 1] != '-':
                    d -= 1
                    if d == 0:
                        break
            inner, rest = p[1:i], p[i + 1:]
            k = top_split_as(inner)
            q = strip_generics(inner[k + 4:]) + rest if k >= 0 else strip_generics(p)
        else:
            q = strip_generics(p)
        parts = [x for x in q.split('::') if x]
        r = '::'.join(parts[-2:])
        _shortcache[p] = r
    return r


def top_split_as(s):
    d = 0
    for i, c in enumerate(s):
        if c in '<([':
            d += 1
        elif c in '>)]' and s[i - 1] != '-':
            d -= 1
        elif d == 0 and s.startswith(' as ', i):
            return i
    return -1


class Prog:
    def __init__(self, d=None):
        self.bodies = {}      # path -> body (with '_types')
        self.adts = {}
        self.impls = []
        self.crates = []
        self.closure_bodies = {}
        if d:
            for f in sorted(os.listdir(d)):
                if f.endswith('.json'):
                    with open(os.path.join(d, f)) as fh:
                        self.add(json.load(fh), f)

    def add(self, j, fname):
        kind = fname.split('.')[-2]
        types = [nolt(t) for t in j['types']]
        self.crates.append((j['crate'], kind, len(j['bodies'])))
        pre = 'bin:' if kind == 'bin' else ''
        cnt = {}
        for b in j['bodies']:
            p = pre + nolt(b['p'])
            b['p0'] = b['p']
            n = cnt.get(p, 0)
            cnt[p] = n + 1
            if n:
                p = p + '#%d' % n
            b['p'] = p
            b['_t'] = types
            b['_pre'] = pre
            self.bodies[p] = b
            if b.get('derived') and p.endswith(' as core::cmp::PartialEq>::eq'):
                terms.DERIVED_EQ.add(p[len(pre) + 1:].split(' as ')[0].split('<')[0])
        for a in j['adts']:
            p = nolt(a['p'])
            a['_t'] = types
            self.adts[p] = a
            if a.get('enum'):
                terms.register(p, [v[0] for v in a['v']], {v[0]: [f[0] for f in v[1]] for v in a['v']})
        for i in j['impls']:
            i['self'] = nolt(i['self'])
            if i['trait']:
                i['trait'] = nolt(i['trait'])
            i['crate'] = j['crate']
            self.impls.append(i)

    def fn_paths(self):
        return [p for p, b in self.bodies.items() if b['k'] != 'Closure']

    def resolve(self, f, pre):
        """path of the local body a fnref denotes, or None"""
        r = f.get('r')
        if r and r[1] != 'virtual':
            p = nolt(r[0])
            if pre and (pre + p) in self.bodies:
                return pre + p
            if p in self.bodies:
                return p
        return None

    def never_overridden(self, p):
        """p is the default body of a trait method that no implementation replaces"""
        m = getattr(self, '_over', None)
        if m is None:
            m = self._over = {}
            for q in self.bodies:
                if q.startswith('<') and ' as ' in q:
                    m.setdefault(q.split('#')[0].rsplit('::', 1)[-1], []).append(q)
        if not self.bodies[p].get('deftrait'):
            return False
        tr, _, meth = p.rpartition('::')
        return not any((' as ' + tr) in q for q in m.get(meth, ()))

    # ---- structural fingerprint (fast path): independent of line numbers and local numbering
    def fingerprint(self, p):
        b = self.bodies[p]
        fp = b.get('_fp')
        if fp is None:
            m = {}
            out = []
            self._fp(b, b, m, out, set())
            fp = hashlib.md5('\n'.join(out).encode()).hexdigest()
            b['_fp'] = fp
        return fp

    def _fp(self, b, root, m, out, stack):
        ty = b['_t']

        def w(x):
            if isinstance(x, dict):
                k = x.get('k')
                if k == 'Closure':
                    q = self.closure(x['p'], b)
                    if q is not None and q['p'] not in stack:
                        out.append('Closure{')
                        stack.add(q['p'])
                        for pp in q['params']:
                            w(pp)
                        w(q['e'])
                        out.append('}')
                        return
                out.append('{')
                for kk in x:
                    if kk in ('ln', 'm', 'n') and not (kk == 'n' and k in ('Field', 'Repeat', 'ConstParam', 'Opaque')):
                        continue
                    v = x[kk]
                    if kk == 'v' and isinstance(v, int):
                        v = m.setdefault(('v', v), len(m))
                    elif kk == 'lbl' and v is not None:
                        v = m.setdefault(('l', v), len(m))
                    elif kk == 't' and isinstance(v, int):
                        v = ty[v]
                    elif kk == 'a' and isinstance(v, list) and v and isinstance(v[0], int):
                        v = ','.join(ty[i] if isinstance(i, int) else str(i) for i in v)
                    elif kk in ('p', 'adt') and isinstance(v, str):
                        v = nolt(v)
                    out.append(kk)
                    w(v)
                out.append('}')
            elif isinstance(x, list):
                out.append('[')
                for y in x:
                    w(y)
                out.append(']')
            else:
                out.append(nolt(x) if isinstance(x, str) else repr(x))
        for pp in b['params']:
            w(pp)
        out.append(str(b.get('unsafe')))
        w(b['e'])

    def size(self, p):
        """number of expression nodes of the body of p, its closures not counted"""
        b = self.bodies[p]
        n = b.get('_size')
        if n is None:
            n = 0
            st = [b['e']]
            while st:
                x = st.pop()
                if isinstance(x, dict):
                    n += 'k' in x
                    st.extend(v for k, v in x.items() if not k.startswith('_'))
                elif isinstance(x, list):
                    st.extend(x)
            b['_size'] = n
        return n

    def callees(self, p):
        """every function reference in the body of p, closures included"""
        b = self.bodies[p]
        r = b.get('_callees')
        if r is not None:
            return r
        out = []
        seen = set()

        def w(x, b):
            if isinstance(x, dict):
                if x.get('k') == 'Closure' or x.get('k') == 'ConstBlock':
                    q = self.closure(x['p'], b)
                    if q is not None and q['p'] not in seen:
                        seen.add(q['p'])
                        w(q['e'], q)
                f = x.get('f')
                if isinstance(f, dict) and 'p' in f and 'r' in f:
                    out.append(f)
                for v in x.values():
                    if isinstance(v, (dict, list)):
                        w(v, b)
            elif isinstance(x, list):
                for v in x:
                    if isinstance(v, (dict, list)):
                        w(v, b)
        w(b['e'], b)
        b['_callees'] = out
        return out

    def constrefs(self, p):
        """constants and statics used in p (closures included)"""
        out, seen = set(), set()

        def w(x, b):
            if isinstance(x, dict):
                k = x.get('k')
                if k in ('Closure', 'ConstBlock'):
                    q = self.closure(x['p'], b)
                    if q is not None and q['p'] not in seen:
                        seen.add(q['p'])
                        w(q['e'], q)
                elif k in ('Const', 'Static') and isinstance(x.get('p'), str):
                    q = nolt(x.get('r') or x['p'])
                    q = b['_pre'] + q if b['_pre'] + q in self.bodies else q
                    if q in self.bodies:
                        out.add(q)
                for v in x.values():
                    if isinstance(v, (dict, list)):
                        w(v, b)
            elif isinstance(x, list):
                for v in x:
                    if isinstance(v, (dict, list)):
                        w(v, b)
        w(self.bodies[p]['e'], self.bodies[p])
        return out

    def closure(self, p, b):
        p = b['_pre'] + nolt(p)
        q = self.bodies.get(p)
        if q is None:
            return None
        # duplicates (several expansions with one path): pick the one in the same file/line span
        if p + '#1' in self.bodies:
            for i in range(0, 200):
                r = self.bodies.get(p if i == 0 else p + '#%d' % i)
                if r is None:
                    break
                if r['file'] == b['file'] and b['ln'] <= r['ln'] <= max(b['end'], b['ln']):
                    return r
        return q
