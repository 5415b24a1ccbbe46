"""Hash-consed value-graph terms with gated-phi (`ite`) normal form.

A term is an operator with sub-terms (or Python scalars).  `ite` nodes are kept as ordered,
reduced decision diagrams over boolean atoms, so conditions are canonical.  Binders (`lam`,
`comp`, `fold`, `loop`) are canonical up to renaming of the bound symbols.
"""
import hashlib, itertools

_tab = {}
_fresh = itertools.count(1)
EMPTY = frozenset()
BINDERS = {'lam', 'comp', 'fold', 'loop'}
BOOL_ATOMS = {'is', 'eq', 'lt', 'callb', 'slen', 'pcond', 'range', 'fldb'}


class T:
    __slots__ = ('op', 'a', 'h', 'size', 'atoms', 'fv', 'hb', 'key', 'refs', '_ops')

    def __repr__(self):
        return show(self, 6)

    def __lt__(self, o):
        return self.key < o.key


class TermBudget(Exception):
    pass


LIMIT = [10 ** 9]     # total number of live terms allowed (set by callers around one function)


def mk(op, *a):
    k = (op,) + tuple((id(x) if isinstance(x, T) else ('s', x)) for x in a)
    t = _tab.get(k)
    if t is not None:
        return t
    if len(_tab) > LIMIT[0]:
        raise TermBudget()
    t = T()
    t.op, t.a = op, a
    size, atoms, fv, hb, refs = 1, None, None, 0, False
    hs = [op]
    for x in a:
        if isinstance(x, T):
            size += x.size
            hs.append(x.h)
            if x.atoms:
                atoms = x.atoms if atoms is None else (atoms if x.atoms <= atoms else atoms | x.atoms)
            if x.fv:
                fv = x.fv if fv is None else (fv if x.fv <= fv else fv | x.fv)
            if x.hb > hb:
                hb = x.hb
            refs = refs or x.refs
        else:
            hs.append(repr(x))
    t.size = min(size, 10 ** 9)
    t.h = hashlib.md5('\x00'.join(hs).encode('utf8', 'replace')).hexdigest()
    t.key = (t.size, t.h)
    t.hb = hb
    t.refs = refs or op in ('ref', 'clo', 'fn', 'lazy')
    atoms = atoms or EMPTY
    fv = fv or EMPTY
    if op in ('sym', 'bv'):
        fv = frozenset([t])
    if op == 'ite':
        atoms = atoms | {a[0]}
    elif op in BOOL_ATOMS:
        atoms = atoms | {t}
    if op in BINDERS:
        n = a[0]
        own = {('bv', hb + 1, i) for i in range(n)}
        # bound symbols are those of height hb_of_body+1, recorded in a[1]
        hgt = a[1]
        fv = frozenset(x for x in fv if not (x.op == 'bv' and x.a[0] == hgt))
        atoms = frozenset(x for x in atoms if not any(y.op == 'bv' and y.a[0] == hgt for y in x.fv))
        t.hb = max(hb, hgt)
    t.atoms, t.fv = atoms, fv
    _tab[k] = t
    return t


def sym(name=None):
    return mk('sym', name if name is not None else '~%d' % next(_fresh))


def lit(kind, v):
    return mk('lit', kind, v)


TRUE = lit('bool', True)
FALSE = lit('bool', False)
UNIT = mk('tuple')
NIL = mk('nil')
PANIC = mk('panic')
ERR = mk('ERR')
NEVER = mk('never')


# ---------------------------------------------------------------- substitution / rebuild
def bind(op, n_syms, parts):
    """Build binder `op` over the fresh symbols `n_syms` in `parts` (terms)."""
    hgt = 1 + max([p.hb for p in parts] + [0])
    m = {s: mk('bv', hgt, i) for i, s in enumerate(n_syms)}
    return mk(op, len(n_syms), hgt, *[subst(p, m) for p in parts])


def unbind(t):
    """Open a binder: returns (fresh symbols, parts)."""
    n, hgt = t.a[0], t.a[1]
    ss = [sym() for _ in range(n)]
    m = {mk('bv', hgt, i): s for i, s in enumerate(ss)}
    return ss, [subst(p, m) for p in t.a[2:]]


def subst(t, m):
    if not m:
        return t
    dom = frozenset(m)
    memo = {}

    def go(t):
        if not (t.fv & dom):
            return t
        r = memo.get(t)
        if r is not None:
            return r
        if t in m:
            r = m[t]
        elif t.op in BINDERS:
            n, hgt = t.a[0], t.a[1]
            ss = [sym() for _ in range(n)]
            own = {mk('bv', hgt, i): s for i, s in enumerate(ss)}
            parts = [subst(p, own) for p in t.a[2:]]
            parts = [subst(p, m) for p in parts]
            r = rebind(t.op, ss, parts)
        else:
            r = app(t.op, [go(x) if isinstance(x, T) else x for x in t.a])
        memo[t] = r
        return r
    return go(t)


def rebind(op, ss, parts):
    if op == 'comp':
        return comp(ss[0], parts[0], parts[1])
    return bind(op, ss, parts)


_simpl = {}


def app(op, args):
    f = _simpl.get(op)
    if f:
        return f(*args)
    return mk(op, *args)


# ---------------------------------------------------------------- decision diagrams
def implied(atom, val, others):
    """atom=val fixes which of `others`?"""
    m = {}
    g = _atleast(atom)
    for o in others:
        if o is atom:
            m[o] = val
        elif g is not None and o.op == 'is' and o.a[1] == 'Some':
            h = _atleast(o)
            if h is not None and h[0] is g[0] and (h[1] <= g[1]) == val and h[1] != g[1]:
                m[o] = val          # len > k  =>  len > j for j < k, and the converse
        elif val and o.op == atom.op and atom.op in ('is', 'eq'):
            if atom.op == 'is' and o.a[0] is atom.a[0] and o.a[1] != atom.a[1]:
                m[o] = False
            elif atom.op == 'eq':
                # x == c1  =>  x != c2 for distinct literals
                x1, c1 = _eqlit(atom)
                x2, c2 = _eqlit(o)
                if x1 is not None and x1 is x2 and c1 is not c2:
                    m[o] = False
    return m


def _atleast(t):
    """`t` says that a sequence has more than k elements: (sequence, k)"""
    if t.op != 'is' or t.a[1] != 'Some' or t.a[0].op != 'first':
        return None
    q = t.a[0].a[0]
    if q.op == 'skip' and q.a[0].op == 'lit' and isinstance(q.a[0].a[1], int):
        return q.a[1], q.a[0].a[1]
    return q, 0


def longer(q, k):
    """the sequence q has more than k elements"""
    return nonempty(skip(lit('int', k), q))


def _eqlit(e):
    a, b = e.a
    if b.op in ('lit', 'slit'):
        return a, b
    if a.op in ('lit', 'slit'):
        return b, a
    return None, None


_rmemo = {}


def restrict(t, atom, val):
    if not t.atoms:
        return t
    m = implied(atom, val, t.atoms)
    if not m:
        return t
    k = (t, atom, val)
    r = _rmemo.get(k)
    if r is None:
        r = assume(t, m)
        _rmemo[k] = r
    return r


def assume(t, m):
    dom = frozenset(m)
    memo = {}

    def go(t):
        if not (t.atoms & dom):
            return t
        r = memo.get(t)
        if r is not None:
            return r
        if t in m:
            r = TRUE if m[t] else FALSE
        elif t.op == 'ite':
            c = t.a[0]
            if c in m:
                r = go(t.a[1]) if m[c] else go(t.a[2])
            else:
                c2 = go(c)
                r = ite(c2, go(t.a[1]), go(t.a[2]))
        elif t.op in BINDERS:
            ss, parts = unbind(t)
            r = rebind(t.op, ss, [assume(p, m) for p in parts])
        else:
            r = app(t.op, [go(x) if isinstance(x, T) else x for x in t.a])
        memo[t] = r
        return r
    return go(t)


_imemo = {}


def _top(t):
    if t.op == 'ite':
        return t.a[0]
    return None


def _cof(t, v, val):
    return restrict(t, v, val)


def ite(c, t, e):
    if c is TRUE:
        return t
    if c is FALSE:
        return e
    if t is e:
        return t
    k = (c, t, e)
    r = _imemo.get(k)
    if r is not None:
        return r
    tops = []
    if c.op == 'ite':
        tops.append(c.a[0])
    else:
        tops.append(c)
    for x in (t, e):
        if x.op == 'ite':
            tops.append(x.a[0])
        elif x.op in BOOL_ATOMS:
            tops.append(x)
    v = min(tops)
    if v is c and t.op != 'ite' and e.op != 'ite' and t not in (TRUE, FALSE) and False:
        pass
    c1, c0 = _cofc(c, v, True), _cofc(c, v, False)
    hi = ite(c1, _cof(t, v, True), _cof(e, v, True))
    lo = ite(c0, _cof(t, v, False), _cof(e, v, False))
    r = node(v, hi, lo)
    _imemo[k] = r
    return r


def _cofc(c, v, val):
    if c is v:
        return TRUE if val else FALSE
    m = implied(v, val, [c])
    if c in m:
        return TRUE if m[c] else FALSE
    return restrict(c, v, val)


def node(v, hi, lo):
    if hi is lo:
        return hi
    if hi is TRUE and lo is FALSE:
        return v
    if v.op in ('is', 'eq') and lo.atoms and restrict(lo, v, True) is hi:
        return lo           # v only repeats what lo's own (mutually exclusive) conditions decide
    return mk('ite', v, hi, lo)


def NOT(c):
    return ite(c, FALSE, TRUE)


def AND(a, b):
    return ite(a, b, FALSE)


def OR(a, b):
    return ite(a, TRUE, b)


_simpl['ite'] = ite


# ---------------------------------------------------------------- data
def adt(path, var, fields):
    """fields: list of (name, term)"""
    fs = sorted(fields, key=lambda x: str(x[0]))
    return mk('adt', path, var or '', tuple(n for n, _ in fs), *[t for _, t in fs])


def _adt(path, var, names, *ts):
    return mk('adt', path, var, names, *ts)


_simpl['adt'] = _adt


def SOME(x):
    return adt('Option', 'Some', [('0', x)])


NONE = adt('Option', 'None', [])


def OK(x):
    return adt('Result', 'Ok', [('0', x)])


def ERRV(x):
    return adt('Result', 'Err', [('0', x)])


def lift(f, t, depth=0):
    """apply f through top-level ite of t"""
    if t.op == 'ite':
        return ite(t.a[0], lift(f, t.a[1]), lift(f, t.a[2]))
    return f(t)


def fld(t, n, var=None):
    n = str(n)

    def one(t):
        if t.op == 'adt':
            if n in t.a[2] and (var is None or t.a[1] == var or not t.a[1]):
                return t.a[3 + t.a[2].index(n)]
            return NEVER
        if t.op == 'tuple' and n.isdigit() and int(n) < len(t.a):
            return t.a[int(n)]
        if t.op == 'upd':
            if t.a[1] == n:
                return t.a[2]
            return fld(t.a[0], n, var)
        if t is NEVER or t is PANIC:
            return t
        if t.op == 'first' and var == 'Some':
            s = t.a[0]
            # first of a stream whose every element is the same closed value
            c = const_elem(s)
            if c is not None:
                return c
            c = chosen(s)
            if c is not None:
                return c
            if s.op not in ('comp', 'cat', 'yield'):
                return mk('idx', s, lit('int', 0))
        return mk('fld', t, n, var or '')

    def down(t):
        if t.op != 'ite':
            return one(t)
        hi, lo = down(t.a[1]), down(t.a[2])
        if hi is NEVER or lo is NEVER:      # a field of another variant is not read there
            return lo if hi is NEVER else hi
        return ite(t.a[0], hi, lo)
    return down(t)


_simpl['fld'] = lambda t, n, v: fld(t, n, v or None)


def upd(t, n, v):
    n = str(n)
    if t.op == 'adt' and n in t.a[2]:
        i = t.a[2].index(n)
        return mk('adt', t.a[0], t.a[1], t.a[2], *[(v if j == i else x) for j, x in enumerate(t.a[3:])])
    if t.op == 'tuple' and n.isdigit() and int(n) < len(t.a):
        return mk('tuple', *[(v if j == int(n) else x) for j, x in enumerate(t.a)])
    if v.op == 'fld' and v.a[0] is t and v.a[1] == n:
        return t
    # canonical chain: latest write per field, sorted
    w = {}
    b = t
    while b.op == 'upd':
        w.setdefault(b.a[1], b.a[2])
        b = b.a[0]
    w[n] = v
    for k in sorted(w):
        if w[k].op == 'fld' and w[k].a[0] is b and w[k].a[1] == k:
            continue
        b = mk('upd', b, k, w[k])
    return b


def _upd(t, n, v):
    return upd(t, n, v)


_simpl['upd'] = _upd

VARIANTS = {'Option': ['None', 'Some'], 'Result': ['Err', 'Ok'], 'core::cmp::Ordering': ['Equal', 'Greater', 'Less']}


DERIVED_EQ = set()   # enums whose equality is the derived one
REG = {}      # enum name -> every variant name known in the analysed programs


FIELDS = {}   # (enum name, variant) -> field names, None when the analysed programs disagree


def register(name, variants, fields=None):
    for v, fs in (fields or {}).items():
        fs = tuple(fs)
        if FIELDS.setdefault((name, v), fs) != fs:
            FIELDS[(name, v)] = None
    if name in VARIANTS:
        return
    l = REG.setdefault(name, [])
    for v in variants:
        if v not in l:
            l.append(v)


def isv(t, adtname, var, allv):
    """is `t` of variant `var`?"""
    allv = REG.get(adtname) or allv
    def one(t):
        if t.op == 'adt' and t.a[1]:
            return TRUE if t.a[1] == var else FALSE
        if t is PANIC or t is NEVER:
            return FALSE
        if len(allv) == 1:
            return TRUE
        if adtname == 'Option' and t.op == 'first':
            n = nonempty(t.a[0])
            return n if var == 'Some' else NOT(n)
        last = sorted(allv)[0] if False else sorted(allv)[-1]
        if len(allv) == 2:
            # canonical positive variant: alphabetically last (Some, Ok)
            a = mk('is', t, last, adtname)
            return a if var == last else NOT(a)
        if var == last:
            r = TRUE
            for v in reversed(sorted(allv)[:-1]):
                r = ite(mk('is', t, v, adtname), FALSE, r)
            return r
        return mk('is', t, var, adtname)
    return lift(one, t)


def _is(t, var, adtname):
    if t.op == 'adt' and t.a[1]:
        return TRUE if t.a[1] == var else FALSE
    if t.op == 'ite':
        return ite(t.a[0], _is(t.a[1], var, adtname), _is(t.a[2], var, adtname))
    if t.op == 'first' and adtname == 'Option' and var == 'Some':
        return nonempty(t.a[0])
    if t is PANIC or t is NEVER:
        return FALSE
    return mk('is', t, var, adtname)


_simpl['is'] = _is


def eq(a, b):
    if a is b:
        return TRUE
    if a.op == 'ite':
        return ite(a.a[0], eq(a.a[1], b), eq(a.a[2], b))
    if b.op == 'ite':
        return ite(b.a[0], eq(a, b.a[1]), eq(a, b.a[2]))
    if a.op == 'lit' and b.op == 'lit' or a.op == 'slit' and b.op == 'slit':
        return FALSE
    for x, y in ((a, b), (b, a)):
        if x is TRUE:
            return y
        if x is FALSE:
            return NOT(y)
        if x.op == 'lit' and y.op == 'len' and type(x.a[1]) is int and 0 <= x.a[1] <= 8:
            k = x.a[1]
            return AND(longer(y.a[0], k - 1) if k else TRUE, NOT(longer(y.a[0], k)))
        if x.op == 'adt' and x.a[1] and len(x.a) == 3 and x.a[0] in VARIANTS:
            return isv(y, x.a[0], x.a[1], VARIANTS[x.a[0]])
        if x.op == 'adt' and x.a[1] and len(x.a) == 3 and x.a[0] in REG and x.a[0] in DERIVED_EQ:
            return isv(y, x.a[0], x.a[1], REG[x.a[0]])
    if a.op == 'adt' and b.op == 'adt' and a.a[0] == b.a[0] and a.a[1] != b.a[1]:
        return FALSE
    for x, y in ((a, b), (b, a)):
        if x.op == 'adt' and len(x.a) > 3 and (x.a[0] in ('Option', 'Result') or x.a[0] in DERIVED_EQ and (x.a[1] == '' or x.a[0] in REG)):
            if y.op == 'adt' and y.a[:3] != x.a[:3]:
                break
            c = isv(y, x.a[0], x.a[1], VARIANTS.get(x.a[0]) or REG[x.a[0]]) if x.a[1] else TRUE
            for n, v in zip(x.a[2], x.a[3:]):
                c = AND(c, eq(v, fld(y, n, x.a[1] or None)))
            return c
        if x.op == 'tuple' and x.a:
            c = TRUE
            for i, v in enumerate(x.a):
                c = AND(c, eq(v, fld(y, i)))
            return c
    if b < a:
        a, b = b, a
    return mk('eq', a, b)


_simpl['eq'] = eq


def lt(a, b):
    if a is b:
        return FALSE
    if a.op == 'lit' and b.op == 'lit' and isinstance(a.a[1], int) and isinstance(b.a[1], int):
        return TRUE if a.a[1] < b.a[1] else FALSE
    # 0 < len(x)  <=> nonempty
    if a.op == 'lit' and b.op == 'len' and type(a.a[1]) is int and 0 <= a.a[1] <= 8:
        return longer(b.a[0], a.a[1])
    if b.op == 'lit' and a.op == 'len' and type(b.a[1]) is int and 0 <= b.a[1] <= 9:
        return NOT(longer(a.a[0], b.a[1] - 1)) if b.a[1] else FALSE
    if b.op == 'lit' and b.a[0] == 'int' and type(b.a[1]) is int and b.a[1] != 0 and a.op != 'lit':
        return NOT(lt(lit('int', b.a[1] - 1), a))       # x < c  <=>  not (c - 1 < x)
    if a.op == 'lit' and type(a.a[1]) is int and b.op == 'ar' and b.a[0] == 'Add' and len(b.a) == 3:
        for x, y in ((b.a[1], b.a[2]), (b.a[2], b.a[1])):
            if x.op == 'lit' and type(x.a[1]) is int and 0 <= x.a[1] <= a.a[1]:
                return lt(lit('int', a.a[1] - x.a[1]), y)
    return mk('lt', a, b)


_simpl['lt'] = lt


# ---------------------------------------------------------------- streams (lists, iterators, strings)
def YIELD(e):
    return mk('yield', e)


def cat(*ss):
    out = []
    for s in ss:
        if s.op == 'cat':
            out.extend(s.a)
        elif s is NIL:
            continue
        else:
            out.append(s)
    # merge adjacent string literals
    m = []
    for s in out:
        if m and s.op == 'slit' and m[-1].op == 'slit':
            m[-1] = mk('slit', m[-1].a[0] + s.a[0])
        else:
            m.append(s)
    if not m:
        return NIL
    if len(m) == 1:
        return m[0]
    return mk('cat', *m)


_simpl['cat'] = cat


def slit(s):
    return mk('slit', s) if s else NIL


def comp(x, base, body):
    """stream: for x in base emit body   (x a fresh symbol)"""
    if body is NIL or base is NIL:
        return NIL
    if body.op == 'yield' and body.a[0] is x:
        return base
    if base.op == 'yield':
        return subst(body, {x: base.a[0]})
    if base.op == 'cat' :
        return cat(*[comp(x, b, body) for b in base.a])
    if base.op == 'ite':
        return ite(base.a[0], comp(x, base.a[1], body), comp(x, base.a[2], body))
    if base.op == 'comp':
        (y,), (b2, body2) = unbind(base)
        return comp(y, b2, sbind(body2, x, body))
    r = small_range(base)
    if r is not None:
        return comp(x, r, body)
    if base.op == 'call' and len(base.a) == 2 and base.a[0] == 'Itertools::unique' and body.op == 'ite' and filters(x, body):
        return mk('call', base.a[0], comp(x, base.a[1], body))
    if body.op == 'yield' and x not in body.fv and not body.refs:
        return repeat(body.a[0], length(base))
    if body.op == 'ite' and x not in body.a[0].fv:
        return ite(body.a[0], comp(x, base, body.a[1]), comp(x, base, body.a[2]))
    if base.op in ('adt', 'zip'):
        x, b2, (body,) = norm_base(x, base, [body])
        if b2 is not base:
            return comp(x, b2, body)
    return bind('comp', [x], [base, body])


def filters(x, body):
    """the body only keeps or drops x"""
    if body.op == 'ite':
        return filters(x, body.a[1]) and filters(x, body.a[2])
    return body is NIL or body.op == 'yield' and body.a[0] is x


def small_range(s):
    """the numbers of a range with small constant bounds"""
    if s.op == 'adt' and s.a[1] == '' and s.a[0].endswith('ops::range::Range'):
        f = dict(zip(s.a[2], s.a[3:]))
        a, b = f['start'], f['end']
        if a.op == b.op == 'lit' and isinstance(a.a[1], int) and isinstance(b.a[1], int) and b.a[1] - a.a[1] <= 6:
            return cat(*[mk('yield', lit(a.a[0], i)) for i in range(a.a[1], b.a[1])])
    return None


def repeat(x, n):
    """n copies of x"""
    if n.op == 'lit' and isinstance(n.a[1], int) and n.a[1] <= 6:
        return cat(*[mk('yield', x)] * n.a[1])
    return mk('take', n, mk('call', 'repeat::repeat', x))


def repl(t, old, new):
    """replace every occurrence of the sub-term `old`"""
    memo = {}

    def go(t):
        if t is old:
            return new
        if t.size <= old.size:
            return t
        r = memo.get(t)
        if r is not None:
            return r
        if t.op in BINDERS:
            ss, parts = unbind(t)
            r = rebind(t.op, ss, [repl(p, old, new) for p in parts])
        elif t.op == 'fld' and t.a[0] is old and new.op == 'adt' and new.a[1] == t.a[2]:
            r = fld(new, t.a[1], t.a[2])
        elif t.op in ('is',) and t.a[0] is old:
            r = app(t.op, [new] + list(t.a[1:]))
        else:
            r = app(t.op, [go(x) if isinstance(x, T) else x for x in t.a])
        memo[t] = r
        return r
    return go(t)


NATS = mk('nats')


def norm_base(x, base, bodies):
    """loops over the indices of a collection are loops over its elements"""
    if base.op == 'adt' and base.a[0].endswith('ops::range::Range') and base.a[1] == '':
        f = dict(zip(base.a[2], base.a[3:]))
        s, e = f['start'], f['end']
        if s.op == 'lit' and s.a[1] == 0 and e.op == 'len':
            V = e.a[0]
            z = sym()
            bodies = [subst(repl(b, idx(V, x), fld(z, '1')), {x: fld(z, '0')}) for b in bodies]
            x, base = z, mk('zip', NATS, V)
    if base.op == 'zip' and base.a[0] is NATS:
        p = fld(x, '1')
        y = sym()
        nb = [repl(b, p, y) for b in bodies]
        if not any(x in b.fv for b in nb):
            return y, base.a[1], nb
    return x, base, bodies


def elementwise(s):
    if s.op == 'comp':
        (x,), (b, body) = unbind(s)
        if body.op == 'yield':
            return x, b, body
    return None


def idx(v, i):
    if v.op == 'ite':
        return ite(v.a[0], idx(v.a[1], i), idx(v.a[2], i))
    if i.op == 'lit' and isinstance(i.a[1], int):
        items = list(v.a) if v.op == 'cat' else [v] if v.op == 'yield' else None
        if items:
            n = i.a[1]
            if all(x.op == 'yield' for x in items[:n + 1]) and n < len(items):
                return items[n].a[0]
        if i.a[1] < 8:
            return fld(first(skip(i, v)), '0', 'Some')
    ew = elementwise(v)
    if ew:
        return subst(ew[2].a[0], {ew[0]: idx(ew[1], i)})
    if v.op == 'take' and v.a[1].op == 'call' and v.a[1].a[0] == 'repeat::repeat':
        return v.a[1].a[1]
    if i.op == 'ar' and i.a[0] == 'Sub' and i.a[1] is length(v) and i.a[2].op == 'lit':
        i = mk('fromend', i.a[2].a[1])
    if i.op == 'fromend' and i.a[0] == 1:
        return fld(first(rev(v)), '0', 'Some')
    return mk('idx', v, i)


def skip(n, s):
    if n.op == 'lit' and isinstance(n.a[1], int):
        k = n.a[1]
        if k == 0 or s is NIL:
            return s
        if s.op == 'yield':
            return NIL
        if s.op == 'cat' and s.a[0].op == 'yield':
            return skip(lit('int', k - 1), cat(*s.a[1:]))
        if s.op == 'ite':
            return ite(s.a[0], skip(n, s.a[1]), skip(n, s.a[2]))
        if s.op == 'skip' and s.a[0].op == 'lit':
            return mk('skip', lit('int', k + s.a[0].a[1]), s.a[1])
    ew = elementwise(s)
    if ew:
        return comp(ew[0], skip(n, ew[1]), ew[2])
    return mk('skip', n, s)


def take(n, s):
    if s is NIL:
        return NIL
    if n.op == 'lit' and isinstance(n.a[1], int):
        k = n.a[1]
        if k == 0:
            return NIL
        if s.op == 'yield':
            return s
        if s.op == 'cat' and s.a[0].op == 'yield':
            return cat(s.a[0], take(lit('int', k - 1), cat(*s.a[1:])))
        if k <= 6 and s.op == 'call' and s.a[0] == 'repeat::repeat':
            return repeat(s.a[1], n)
    ew = elementwise(s)
    if ew:
        return comp(ew[0], take(n, ew[1]), ew[2])
    return mk('take', n, s)


# maps and sets (a set is a map to unit)
def emptymap(kind):
    return mk('emptymap', 'BTree' if 'BTree' in kind else 'Hash')


def mapset(m, k, v):
    if m.op == 'mapset' and m.a[1] is k:
        m = m.a[0]
    return mk('mapset', m, k, v)


def maplookup(m, k):
    if m.op == 'emptymap':
        return NONE
    if m.op == 'ite':
        return ite(m.a[0], maplookup(m.a[1], k), maplookup(m.a[2], k))
    if m.op == 'mapset':
        return ite(eq(m.a[1], k), SOME(m.a[2]), maplookup(m.a[0], k))
    if m.op == 'mapdel':
        return ite(eq(m.a[1], k), NONE, maplookup(m.a[0], k))
    # the entry whose key is that of an entry of the same map is that entry
    if k.op == 'fld' and k.a[1] == '0':
        e = k.a[0]
        if e.op == 'idx' and e.a[0] is m:
            return SOME(fld(e, '1'))
    return mk('maplookup', m, k)


def mapext(m, s):
    """insert every (key, value) of stream s, in order"""
    if s is NIL:
        return m
    if s.op == 'yield' and s.a[0].op == 'tuple':
        return mapset(m, s.a[0].a[0], s.a[0].a[1])
    if s.op == 'cat':
        for x in s.a:
            m = mapext(m, x)
        return m
    if s.op == 'ite':
        return ite(s.a[0], mapext(m, s.a[1]), mapext(m, s.a[2]))
    return mk('mapext', m, s)


def map_form(nv, acc):
    """nv as acc extended by a stream of entries, or None"""
    if nv is acc:
        return NIL
    if nv.op == 'ite':
        a, b = map_form(nv.a[1], acc), map_form(nv.a[2], acc)
        return None if a is None or b is None or acc in nv.a[0].fv else ite(nv.a[0], a, b)
    if nv.op == 'mapset':
        r = map_form(nv.a[0], acc)
        return None if r is None else cat(r, YIELD(mk('tuple', nv.a[1], nv.a[2])))
    if nv.op == 'mapext':
        r = map_form(nv.a[0], acc)
        return None if r is None else cat(r, nv.a[1])
    return None


def rev(s):
    if s is NIL or s.op == 'yield':
        return s
    if s.op == 'cat':
        return cat(*[rev(x) for x in reversed(s.a)])
    if s.op == 'ite':
        return ite(s.a[0], rev(s.a[1]), rev(s.a[2]))
    if s.op == 'rev':
        return s.a[0]
    if s.op == 'comp':
        (x,), (b, body) = unbind(s)
        return comp(x, rev(b), rev(body))
    return mk('rev', s)


def sbind(s, x, body):
    """monadic bind of stream s with \\x. body"""
    if s is NIL:
        return NIL
    if s.op == 'yield':
        return subst(body, {x: s.a[0]})
    if s.op == 'cat':
        return cat(*[sbind(b, x, body) for b in s.a])
    if s.op == 'ite':
        return ite(s.a[0], sbind(s.a[1], x, body), sbind(s.a[2], x, body))
    y = sym()
    return comp(y, s, subst(body, {x: y}))


def opt_stream(o):
    if o.op == 'first':
        pass
    return lift(lambda o: YIELD(o.a[3]) if (o.op == 'adt' and o.a[1] == 'Some') else NIL if (o.op == 'adt') else
                ite(isv(o, 'Option', 'Some', VARIANTS['Option']), YIELD(fld(o, '0', 'Some')), NIL), o)


def nonempty(s):
    if s is NIL:
        return FALSE
    if s.op == 'yield':
        return TRUE
    if s.op == 'slit':
        return TRUE
    if s.op == 'cat':
        r = FALSE
        for x in s.a:
            r = OR(r, nonempty(x))
        return r
    if s.op == 'ite':
        return ite(s.a[0], nonempty(s.a[1]), nonempty(s.a[2]))
    if s.op == 'comp':
        (x,), (b, body) = unbind(s)
        n = nonempty(body)
        if n is TRUE:
            return nonempty(b)
        if x not in n.fv:
            return AND(n, nonempty(b))
        s = comp(x, b, ite(n, YIELD(UNIT), NIL))
    return mk('is', mk('first', s), 'Some', 'Option')


def first(s):
    if s is NIL:
        return NONE
    if s.op == 'yield':
        return SOME(s.a[0])
    if s.op == 'ite':
        return ite(s.a[0], first(s.a[1]), first(s.a[2]))
    if s.op == 'cat':
        h = first(s.a[0])
        r = first(cat(*s.a[1:]))
        return ite(isv(h, 'Option', 'Some', VARIANTS['Option']), h, r)
    return mk('first', s)


_simpl['first'] = first


def chosen(s):
    """the value computed from the first selected element of the base: f(first selected x) for first(f(x) for selected x)"""
    if s.op != 'comp':
        return None
    (x,), (b, body) = unbind(s)

    def simple(t):
        return t is NIL or t.op == 'yield' or t.op == 'ite' and simple(t.a[1]) and simple(t.a[2])

    def leaves(t):
        return leaves(t.a[1]) & leaves(t.a[2]) if t.op == 'ite' else t is NIL or t.a[0] is x
    if not simple(body) or leaves(body):
        return None

    def sel(t, y):
        if t.op == 'ite':
            return ite(t.a[0], sel(t.a[1], y), sel(t.a[2], y))
        return t if t is NIL else mk('yield', y)

    def val(t):
        if t.op == 'ite':       # the element is selected: conditions that only decide that no longer matter
            if t.a[1] is NIL or t.a[2] is NIL:
                return val(t.a[2] if t.a[1] is NIL else t.a[1])
            return ite(t.a[0], val(t.a[1]), val(t.a[2]))
        return t.a[0]
    w = fld(first(comp(x, b, sel(body, x))), '0', 'Some')
    return subst(val(body), {x: w})


def const_elem(s):
    """if all elements yielded by s are one closed value, return it"""
    if s.op == 'yield':
        return s.a[0]
    if s.op == 'ite':
        a = const_elem(s.a[1]) if s.a[1] is not NIL else None
        b = const_elem(s.a[2]) if s.a[2] is not NIL else None
        if s.a[1] is NIL:
            return b
        if s.a[2] is NIL:
            return a
        return a if a is b else None
    if s.op == 'comp':
        (x,), (b, body) = unbind(s)
        c = const_elem(body)
        if c is not None and x not in c.fv:
            return c
    return None


def length(s):
    if s is NIL:
        return lit('int', 0)
    if s.op == 'yield':
        return lit('int', 1)
    if s.op == 'cat' and all(x.op == 'yield' for x in s.a):
        return lit('int', len(s.a))
    if s.op == 'comp':
        (x,), (b, body) = unbind(s)
        if body.op == 'yield':
            return length(b)
    if s.op == 'take' and s.a[1].op == 'call' and s.a[1].a[0] == 'repeat::repeat':
        return s.a[0]
    if s.op == 'adt' and s.a[1] == '' and s.a[0].endswith('ops::range::Range'):
        f = dict(zip(s.a[2], s.a[3:]))
        if f['start'].op == 'lit' and f['start'].a[1] == 0:
            return f['end']
    return mk('len', s)


_simpl['len'] = length


def arith(op, a, b):
    if a.op == 'lit' and b.op == 'lit' and isinstance(a.a[1], int) and isinstance(b.a[1], int) and a.a[1] is not True:
        x, y = a.a[1], b.a[1]
        try:
            return lit('int', {'Add': x + y, 'Sub': x - y, 'Mul': x * y}[op])
        except KeyError:
            pass
    if op in ('Add', 'Mul', 'BitOr', 'BitAnd', 'BitXor'):
        args = []
        for t in (a, b):
            if t.op == 'ar' and t.a[0] == op:
                args.extend(t.a[1:])
            else:
                args.append(t)
        args = sorted(args)
        if op in ('BitOr', 'BitAnd'):
            d = []
            for t in args:
                if t not in d:
                    d.append(t)
            args = d
            if len(args) == 1:
                return args[0]
        unit = {'Add': 0, 'Mul': 1}.get(op)
        args2 = [t for t in args if not (t.op == 'lit' and unit is not None and t.a[1] == unit and t.a[1] is not True)]
        if len(args2) == 1:
            return args2[0]
        return mk('ar', op, *args2)
    if op == 'Sub' and b.op == 'lit' and b.a[1] == 0:
        return a
    return mk('ar', op, a, b)


def _ar(op, *args):
    r = args[0]
    for x in args[1:]:
        r = arith(op, r, x)
    return r


_simpl['ar'] = _ar
_simpl['idx'] = idx
_simpl['mapset'] = mapset
_simpl['maplookup'] = maplookup
_simpl['mapext'] = mapext
_simpl['skip'] = skip
_simpl['take'] = take
_simpl['rev'] = rev
def eff(prev, t):
    """an effect after `prev`; consecutive effects on shared cells (marked E) are a set"""
    q = prev
    while t.op == 'E' and q.op == 'eff' and q.a[1].op == 'E':
        if q.a[1] is t:
            return prev
        q = q.a[0]
    return mk('eff', prev, t)


_simpl['eff'] = eff


def bor(*xs):
    """union of flags"""
    out = set()
    for x in xs:
        out.update(x.a if x.op == 'bor' else [x])
    some = [x for x in out if not nobits(x)]
    out = some or sorted(out)[:1]
    return mk('bor', *sorted(out)) if len(out) > 1 else out[0]


def nobits(x):
    return x.op == 'default' or x.op in ('call', 'callb') and len(x.a) == 1 and (str(x.a[0]) == '_::empty' or str(x.a[0]).startswith('Default::default[') or str(x.a[0]).endswith(' as core::default::Default>::default'))


def bdiff(x, y):
    if x.op == 'bdiff':
        return bdiff(x.a[0], bor(x.a[1], y))
    return mk('bdiff', x, y)


_simpl['bor'] = bor
_simpl['bdiff'] = bdiff
_simpl['eset'] = lambda *a: mk('eset', *sorted({x for x in a if x is not NIL}))


def reset_tables():
    """forget memo tables (terms themselves stay shared)"""
    _rmemo.clear()
    _imemo.clear()


# ---------------------------------------------------------------- display
def show(t, depth=30, seen=None):
    if not isinstance(t, T):
        return repr(t)
    if depth == 0:
        return '…'
    d = depth - 1
    o, a = t.op, t.a
    if o == 'lit':
        return repr(a[1]) if a[0] != 'bool' else str(a[1]).lower()
    if o == 'slit':
        return 'S' + repr(a[0])
    if o == 'sym':
        return str(a[0])
    if o == 'bv':
        return 'x%d_%d' % a
    if o == 'adt':
        nm = a[0].split('::')[-1].split('<')[0] + ('::' + a[1] if a[1] else '')
        if a[0] in ('Option', 'Result'):
            nm = a[1]
        if len(a) == 3:
            return nm
        if all(n.isdigit() for n in a[2]):
            return nm + '(' + ', '.join(show(x, d) for x in a[3:]) + ')'
        return nm + '{' + ', '.join('%s: %s' % (n, show(x, d)) for n, x in zip(a[2], a[3:])) + '}'
    if o == 'tuple':
        return '(' + ', '.join(show(x, d) for x in a) + ')'
    if o == 'fld':
        return show(a[0], d) + '.' + (a[2] + '.' if a[2] else '') + a[1]
    if o == 'ite':
        return '(if %s then %s else %s)' % (show(a[0], d), show(a[1], d), show(a[2], d))
    if o == 'is':
        return show(a[0], d) + '?' + a[1]
    if o == 'eq':
        return '(%s == %s)' % (show(a[0], d), show(a[1], d))
    if o == 'lt':
        return '(%s < %s)' % (show(a[0], d), show(a[1], d))
    if o in ('call', 'callb'):
        return shortp(a[0]) + '(' + ', '.join(show(x, d) for x in a[1:]) + ')'
    if o == 'yield':
        return '[' + show(a[0], d) + ']'
    if o == 'cat':
        return ' ++ '.join(show(x, d) for x in a)
    if o == 'nil':
        return '[]'
    if o == 'comp':
        return '{x%d_0 in %s: %s}' % (a[1], show(a[2], d), show(a[3], d))
    if o in ('lam', 'fold', 'loop'):
        return '%s x%d/%d. (%s)' % (o, a[1], a[0], ', '.join(show(x, d) for x in a[2:]))
    return o + '(' + ', '.join(show(x, d) for x in a) + ')'


def shortp(p):
    import re
    q = p
    while True:
        r = re.sub(r'<[^<>]*>', '', q)
        if r == q:
            break
        q = r
    parts = [x for x in q.split('::') if x]
    return '::'.join(parts[-2:]) if len(parts) > 1 else (p[-60:] if not parts else parts[0])


def ops_in(t, out=None):
    """all sub-terms"""
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        for y in x.a:
            if isinstance(y, T):
                st.append(y)
    return seen
