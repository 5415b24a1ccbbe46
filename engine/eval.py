"""Value-flow analysis: turns a function's typed syntax tree into its value graph (gated SSA normal form).

No path is enumerated and nothing of the program is run: every expression is mapped once per inlining
context to a term over the function's inputs, branches are joined with gated phi nodes, loops over
collections become comprehension / fold terms.
"""
import re
import terms
from terms import *
from prog import short, nolt

MAXDEPTH = 40
MAXNODES = 400000


Budget = TermBudget


class State:
    __slots__ = ('v', 'exits', 'dead')

    def __init__(self, v):
        self.v, self.exits, self.dead = v, [], False

    def fork(self):
        return State(dict(self.v))


class Frame:
    _n = 0

    def __init__(self, body, parent=None):
        Frame._n += 1
        self.id = Frame._n
        self.body = body
        self.parent = parent
        self.types = body['_t']
        self.pre = body['_pre']
        self.depth = 0
        self.alias = {}


IDENT = set('''Clone::clone Deref::deref AsRef::as_ref AsMut::as_mut Borrow::borrow BorrowMut::borrow_mut ToOwned::to_owned
Option::as_ref Option::as_mut Option::as_deref Option::as_deref_mut Option::cloned Option::copied Result::cloned Result::copied Result::as_ref Result::as_mut
slice::iter Vec::iter IntoIterator::into_iter Iterator::cloned Iterator::copied Iterator::by_ref Iterator::fuse Iterator::into_iter
Vec::as_slice slice::to_vec slice::into_vec Vec::into_boxed_slice Vec::as_mut_slice slice::iter_mut DerefMut::deref_mut
Box::new Arc::new Rc::new String::as_str str::as_str String::into_boxed_str boxed::into_string hint::must_use convert::identity Itertools::collect_vec
PreciseAsRef::precise_as_ref array::as_slice Box::as_ref str::as_bytes str::to_owned str::to_string String::as_mut_str Cow::into_owned
VecRef::iter VecRefClone::iter VecRef::into_iter Vec::leak Box::leak Iterator::peekable Vec::into_iter
Vec::shrink_to_fit NicerError::debug_continue NicerError::debug_continue_msg Arc::clone Rc::clone Box::into_inner Box::from
ManuallyDrop::new Pin::new str::trim_matches_none boxed::box_assume_init_into_vec_unsafe mem::take_none Option::as_slice Rc::as_ref Arc::as_ref str::into_boxed_str
Vec::as_ref vec::from_elem_none PathBuf::as_path Path::to_path_buf String::into_bytes_none into_vec::into_vec Vec::drain_all array::iter BTreeSet::iter HashSet::iter HashMap::iter BTreeMap::iter
HashSet::into_iter HashMap::into_iter Arguments::as_str_none option::into_iter'''.split())

EFFECT = re.compile(r'(stdio::_e?print|std::fs::|std::process|process::|OnceLock|OnceCell|RefCell|cell::Cell|sync::.*Mutex|RwLock|Atomic|io::Write|io::Read|std::env::|std::thread|mpsc|tempfile|io::impls|BufWriter|BufReader)')
EFFECT_SHORT = re.compile(r'^(Write::(write|flush|write_all|write_fmt)|Read::read.*|Command::(spawn|output|status)|Child::.*|SharedChild::(spawn|kill|wait|take_stdout)|Sender::send|File::(create|open).*|OpenOptions::open|Mutex::lock|RefCell::.*|OnceLock::(set|get_or_init)|OnceCell::(set|get_or_init)|Cell::set|fs::.*|process::exit|Atomic.*|stdio::_e?print|thread::.*)$')

PANICS = re.compile(r'^(panicking::panic.*|panicking::assert_failed.*|panicking::unreachable_display|panicking::unreachable_default_msg|rt::panic_fmt|panic::panic_.*|option::expect_failed|hint::unreachable_unchecked|intrinsics::unreachable|begin_panic.*|panicking::.*)$')


def lens(pr):
    """an accessor `x_mut(&mut self) -> &mut T`: the same place each time"""
    n = pr.a[1]
    return n.endswith('_mut') and not n.endswith(('push_mut', 'insert_mut'))


class Ev:
    def __init__(self, prog, inline, effectful=None, erase_err=True, budget=MAXNODES, adts=None):
        self.prog = prog
        self.inline = inline
        self.effectful = effectful if effectful is not None else effect_summary(prog)
        self.st = None
        self.clos = {}
        self.owner = {}
        self.lazies = {}
        self.cells = {}
        self.fns = {}
        self.stack = []
        self.budget = budget
        self.n = 0
        self.opaque = set()      # constructs met that are not modelled
        self.calls = set()       # resolved callees met (evidence)
        self.rename = {}         # current name -> reference name
        self.tmp = 0
        self.siteline = {}       # call term -> (file, line)

    # ------------------------------------------------------------------ entry points
    def function(self, path):
        b = self.prog.bodies[path]
        fr = Frame(b)
        self.st = State({'W': mk('W0'), 'E': mk('W0')})
        self.stack = [path]
        args = []
        outs = []
        for i, p in enumerate(b['params']):
            ty = b['_t'][p['t']]
            s = mk('sym', 'p%d' % i)
            if ty.startswith('&mut '):
                self.st.v[('P', i)] = s
                args.append(mk('ref', ('P', i)))
                outs.append(('P', i))
            else:
                args.append(s)
        self.top_outs = outs
        if b['k'] == 'Closure':
            raise ValueError
        val = self.run_frame(fr, lambda: self.body(fr, b, args), top=True)
        return val

    def body(self, fr, b, args):
        params = b['params']
        for p, a in zip(params, args):
            if p['p'] is not None:
                self.bindpat(fr, p['p'], a, None)
        return self.ev(fr, b['e'])

    def run_frame(self, fr, f, top=False):
        outer = self.st
        self.st = outer.fork()
        val = f()
        s = self.st
        mine = ('ret', fr.id)
        if top:
            def leaf(v, st):
                if v is PANIC:
                    return PANIC
                end, s.v = s.v, st          # references are read in the state the function is left in
                v = self.closed(v)
                r = mk('RET', v, st['W'], eset(st['E']), *[self.closed(st[k]) for k in self.top_outs])
                s.v = end
                return r
            cur = None
            if not s.dead:
                cur = leaf(val, s.v)
            for (g, tgt, v, snap) in reversed(s.exits):
                l = PANIC if tgt == 'panic' else leaf(v, snap)
                cur = l if cur is None else ite(self.closed(g), l, cur)
            return cur if cur is not None else PANIC
        # inlined frame
        items = s.exits
        cur_val, cur_v, alive = val, s.v, not s.dead
        notmine = TRUE
        hoist = []
        for (g, tgt, v, snap) in items:
            if tgt == mine:
                notmine = AND(notmine, NOT(g))
            else:
                hoist.append((AND(notmine, g), tgt, v, snap))
        for (g, tgt, v, snap) in reversed(items):
            if tgt != mine:
                continue
            if not alive:
                cur_val, cur_v, alive = v, snap, True
            else:
                cur_val = self.itev(g, v, cur_val)
                cur_v = self.merge_v(g, snap, cur_v)
        outer.v = cur_v
        outer.exits.extend(hoist)
        outer.dead = not alive
        self.st = outer
        return cur_val if alive else NEVER

    def itev(self, c, a, b):
        return ite(c, a, b)

    def merge_v(self, c, v1, v2):
        out = dict(v1)
        for k, b in v2.items():
            a = out.get(k)
            if a is None:
                out[k] = b
            elif a is not b:
                out[k] = ite(c, a, b)
        return out

    def branch(self, c, f1, f2):
        if c is TRUE:
            return f1()
        if c is FALSE:
            return f2()
        base = self.st
        self.st = base.fork()
        r1 = f1()
        s1 = self.st
        self.st = base.fork()
        r2 = f2()
        s2 = self.st
        nc = NOT(c)
        for (g, t, v, sn) in s1.exits:
            base.exits.append((AND(c, g), t, v, sn))
        for (g, t, v, sn) in s2.exits:
            base.exits.append((AND(nc, g), t, v, sn))
        if s1.dead and s2.dead:
            base.dead = True
            base.v = s2.v
            r = NEVER
        elif s1.dead:
            base.v = s2.v
            r = r2
        elif s2.dead:
            base.v = s1.v
            r = r1
        else:
            base.v = self.merge_v(c, s1.v, s2.v)
            r = ite(c, r1, r2)
        self.st = base
        return r

    def exit(self, target, val):
        self.st.exits.append((TRUE, target, val, self.st.v))
        self.st.dead = True
        return NEVER

    # ------------------------------------------------------------------ places
    def lookup(self, fr, var):
        f = fr
        while f is not None:
            if var in f.alias:
                return f.alias[var]
            k = (f.id, var)
            if k in self.st.v:
                return k
            f = f.parent
        return (fr.id, var)

    def load(self, ref):
        if ref.op == 'ite':
            return ite(ref.a[0], self.load(ref.a[1]), self.load(ref.a[2]))
        if ref.op != 'ref':
            return ref
        v = self.st.v.get(ref.a[0])
        if v is None and ref.a[0][0] == 'cell':
            v = self.cells[ref.a[0]][1]
        if v is None:
            v = mk('uninit', str(ref.a[0]))
        for pr in ref.a[1:]:
            v = self.project(v, pr)
        return v

    def project(self, v, pr):
        if v.op in ('ref',):
            v = self.load(v)
        k = pr.a[0]
        if k == 'f':
            return fld(v, pr.a[1], pr.a[2] or None)
        if k == 'i':
            return self.index(v, pr.a[1])
        if k == 'm':
            return fld(maplookup(v, pr.a[1]), '0', 'Some')
        if k == 'via':
            if v.op == 'updvia' and v.a[1] is pr and lens(pr):
                return v.a[2]
            return mk('call', pr.a[1], v, *pr.a[2:])
        raise ValueError(k)

    def store(self, ref, val):
        if ref.op == 'ite':
            a, b = ref.a[1], ref.a[2]
            self.branch(ref.a[0], lambda: self.store(a, val), lambda: self.store(b, val))
            return
        if ref.op != 'ref':
            # write through something that is not a tracked place (cell contents, raw pointers)
            self.effect(mk('call', 'store', self.closed(ref), self.closed(val)))
            return
        k = ref.a[0]
        base = self.st.v.get(k)
        if k[0] == 'cell':
            new = self.storeat(base if base is not None else self.cells[k][1], ref.a[1:], val)
            self.st.v[k] = new
            c = self.cells[k][0]
            w = mk('call', 'cell-write', c, self.closed(new))
            last = self.st.v['E']
            if last.op == 'eff' and last.a[1].op == 'call' and last.a[1].a[0] == 'cell-write' and last.a[1].a[1] is c:
                self.st.v['E'] = last.a[0]      # overwritten before anything else happened
            self.effect(w, 'E')
            return
        if base is not None and base.op == 'ref' and len(ref.a) > 1:
            self.store(mk('ref', base.a[0], *(base.a[1:] + ref.a[1:])), val)
            return
        self.st.v[k] = self.storeat(base if base is not None else mk('uninit', str(k)), ref.a[1:], val)

    def storeat(self, base, prs, val):
        if not prs:
            return val
        pr = prs[0]
        k = pr.a[0]
        if base.op == 'ite':
            return ite(base.a[0], self.storeat(base.a[1], prs, val), self.storeat(base.a[2], prs, val))
        inner = self.storeat(self.project(base, pr), prs[1:], val)
        if k == 'f':
            if len(pr.a) > 3 and base.op not in ('adt', 'tuple'):
                base = self.expand(base, pr.a[3])
            r = upd(base, pr.a[1], inner)
            if r.op == 'adt' and not r.a[1] and r.a[3].op == 'fld' and all(z.op == 'fld' and z.a[0] is r.a[3].a[0] and z.a[1] == n for n, z in zip(r.a[2], r.a[3:])):
                return r.a[3].a[0]
            return r
        if k == 'm':
            return mapset(base, pr.a[1], inner)
        if k == 'i':
            if inner in (TRUE, FALSE):      # writing the flag that is already there changes nothing
                old = idx(base, pr.a[1])
                return ite(old, base, mk('updi', base, pr.a[1], inner)) if inner is TRUE else ite(old, mk('updi', base, pr.a[1], inner), base)
            return mk('updi', base, pr.a[1], inner)
        if lens(pr):
            if base.op == 'updvia' and base.a[1] is pr:
                base = base.a[0]
            if inner is mk('call', pr.a[1], base, *pr.a[2:]):
                return base
        return mk('updvia', base, pr, inner)

    def expand(self, base, ty):
        """the struct value `base` field by field"""
        a = self.prog.adts.get(ty)
        if a is None or a.get('enum') or len(a['v']) != 1:
            return base
        return adt(adtname(ty), a['v'][0][0] if False else '', [(n, fld(base, n)) for n, *_ in a['v'][0][1]])

    def index(self, v, i):
        if i.op == 'adt' and 'ops::range::Range' in i.a[0]:
            f = dict(zip(i.a[2], i.a[3:]))
            if set(f) == {'start'}:
                return skip(f['start'], v)
            if set(f) == {'end'} and i.a[0].endswith('RangeTo'):
                return take(f['end'], v)
            if not f:
                return v
        return idx(v, i)

    def place(self, fr, e):
        """ref term of a place expression or None"""
        k = e['k']
        if k in ('Var', 'Up'):
            key = self.lookup(fr, e['v'])
            v = self.st.v.get(key)
            return mk('ref', key)
        if k == 'Field':
            b = self.place(fr, e['e'])
            if b is None:
                return None
            ty = nolt(self.ty(fr, e['e'])).lstrip('&').removeprefix('mut ').split('<')[0]
            if ty in self.prog.adts:
                return self.refproj(b, mk('pr', 'f', str(e['n']), '', ty))
            return self.refproj(b, mk('pr', 'f', str(e['n']), ''))
        if k == 'Deref':
            v = self.ev(fr, e['e'])
            if self.isref(v):
                return v
            t = self.ty(fr, e['e'])
            if t.startswith(('&mut ', "&'")) and 'mut ' in t[:12] or t.startswith('alloc::boxed::Box<'):
                return self.place(fr, e['e'])       # what an exclusive reference of unknown origin points to is part of its holder
            return None
        if k == 'Index':
            b = self.place(fr, e['e'])
            i = self.ev(fr, e['i'])
            if b is None:
                return None
            return self.refproj(b, mk('pr', 'i', i))
        if k == 'Coerce':
            return self.place(fr, e['e'])
        return None

    def isref(self, v):
        if v.op == 'ref':
            return True
        if v.op == 'ite':
            return self.isref(v.a[1]) and self.isref(v.a[2])
        return False

    def refproj(self, r, pr):
        if r.op == 'ite':
            return ite(r.a[0], self.refproj(r.a[1], pr), self.refproj(r.a[2], pr))
        # auto-follow: variable that holds a reference
        v = self.st.v.get(r.a[0])
        if v is not None and v.op == 'ref' and len(r.a) == 1:
            return mk('ref', v.a[0], *(v.a[1:] + (pr,)))
        return mk('ref', *(r.a + (pr,)))

    def cellref(self, c):
        """reference to the contents of the shared cell `c`"""
        k = ('cell', c)
        if k not in self.cells:
            self.cells[k] = (c, mk('call', 'cell-content', c))
        if k not in self.st.v:
            self.st.v[k] = self.cells[k][1]
        return mk('ref', k)

    def newtmp(self, val):
        self.tmp += 1
        k = ('tmp', self.tmp)
        self.st.v[k] = val
        return mk('ref', k)

    # ------------------------------------------------------------------ closing terms
    def closed(self, t):
        """replace references by their current values, closures by lambda terms"""
        if not isinstance(t, T) or not t.refs:
            return t
        memo = {}

        def go(t):
            if not t.refs:
                return t
            r = memo.get(t)
            if r is not None:
                return r
            memo[t] = mk('cyc')
            if t.op == 'ref':
                if t.a[0][0] == 'P' and len(t.a) >= 1 and self.st.v.get(t.a[0]) is not None and False:
                    r = t
                else:
                    r = go(self.load(t))
            elif t.op == 'clo':
                r = self.lam(t)
            elif t.op == 'lazy':
                r = go(self.force(t))
            elif t.op == 'fn':
                r = self.fnval(t)
            elif t.op in BINDERS:
                ss, parts = unbind(t)
                r = rebind(t.op, ss, [self.closed(p) for p in parts])
            else:
                r = app(t.op, [go(x) if isinstance(x, T) else x for x in t.a])
            memo[t] = r
            return r
        return go(t)

    def collect_refs(self, t, out):
        if not isinstance(t, T) or not t.refs:
            return
        if t.op == 'ref':
            if t not in out:
                out.append(t)
            return
        if t.op == 'ite':
            for x in t.a[1:]:
                self.collect_refs(x, out)
            return
        for x in t.a:
            self.collect_refs(x, out)

    def lam(self, t):
        key, fr = self.clos[t.a[0]]
        b = key
        n = len(b['params']) - (1 if b['params'] and b['params'][0]['p'] is None else 0)
        ss = [sym() for _ in range(n)]
        base = self.st
        states = {}
        while True:
            self.st = base.fork()
            self.st.v.update(states)
            val = self.apply(t, ss)
            val = self.closed(val)
            # writes of the closure to captured variables become visible effects of the consumer
            changed = [k for k in base.v if self.st.v.get(k) is not states.get(k, base.v[k]) and k not in ('W', 'E')]
            more = [k for k in changed if k not in states]
            if not more:
                break
            states.update((k, sym()) for k in more)
        for ch in ('W', 'E'):
            w = self.st.v[ch]
            if w is not base.v[ch]:
                wb = subst_t(w, base.v[ch], mk('W0'))
                val = mk('seq', eset(wb) if ch == 'E' else wb, val)
        if not states:
            self.st = base
            return eta(bind('lam', ss, [val]))
        # a closure with memory: the lambda maps the state and the arguments to the result and the next state
        ks = list(states)
        val = mk('cap', val, *[self.closed(self.st.v[k]) for k in ks])
        self.st = base
        r = mk('clost' if len(ks) == 1 else 'clostn', bind('lam', [states[k] for k in ks] + ss, [val]), *[self.closed(base.v[k]) for k in ks])
        for i, k in enumerate(ks):
            self.st.v[k] = mk('havoc', self.st.v[k], r)
        return r

    def fnval(self, t):
        """a named function used as a value"""
        f, fr = self.fns[t][:2]
        p = nolt(f['p'])
        sp = short(p)
        target = self.prog.resolve(f, fr.pre)
        n = None
        if f['k'].startswith('Ctor'):
            n = self.ctor_arity(p, 'Variant' in f['k'])
        elif target is not None:
            n = len(self.prog.bodies[target]['params'])
        elif sp in MODELS or sp in IDENT or sp in ('Into::into', 'From::from', 'ToString::to_string'):
            n = 1
        if n is None:
            self.calls.add(p)
            return mk('fnv', p if f['l'] else sp)
        ss = [sym() for _ in range(n)]
        base = self.st
        self.st = base.fork()
        try:
            val = self.closed(self.apply(t, ss))
        except IndexError:
            self.st = base
            return mk('fnv', sp)
        self.st = base
        return eta(bind('lam', ss, [val]))

    def ctor_arity(self, p, variant):
        if variant:
            en, var = p.rsplit('::', 1)
            if en in ('core::option::Option', 'core::result::Result'):
                return 1
            a = self.prog.adts.get(en)
            if a:
                for v in a['v']:
                    if v[0] == var:
                        return len(v[1])
            return 1
        a = self.prog.adts.get(p)
        return len(a['v'][0][1]) if a else 1

    # ------------------------------------------------------------------ effects
    def effect(self, t, ch='W'):
        if ch == 'E' and not (t.op == 'call' and t.a[0] == 'cell-write'):
            t = mk('E', t)
        self.st.v[ch] = terms.eff(self.st.v[ch], t)

    # ------------------------------------------------------------------ patterns
    def bindpat(self, fr, p, val, pl):
        c, binds = self.pat(fr, p, val, pl)
        self.setbinds(fr, binds)
        return c

    def setbinds(self, fr, binds):
        for var, v in binds:
            self.st.v[(fr.id, var)] = v

    def pat(self, fr, p, val, pl):
        """-> (condition, [(var, value)])"""
        k = p['k']
        if k in ('Wild', 'Never', 'Error'):
            return TRUE, []
        if k == 'Bind':
            if p['mutref']:
                if pl is None:
                    pl = val if self.isref(val) else self.newtmp(val)
                v = pl
            else:
                v = self.load(pl) if pl is not None else val
            out = [(p['v'], v)]
            if p['sub']:
                c, b = self.pat(fr, p['sub'], val, pl)
                return c, out + b
            return TRUE, out
        if k == 'Deref':
            v = self.load(pl) if pl is not None else val
            if self.isref(v):
                return self.pat(fr, p['sub'], v, v)
            return self.pat(fr, p['sub'], v, None)
        v = self.load(pl) if pl is not None else val
        if k != 'Bind' and self.isref(v):
            pl = v
            v = self.load(v)
        if k == 'Variant':
            name = adtname(p['adt'])
            c = isv(v, name, p['var'], p['all'])
            out = []
            for n, q in p['f']:
                sv = fld(v, n, p['var'])
                spl = self.refproj(pl, mk('pr', 'f', str(n), p['var'])) if pl is not None and self.isref(pl) else None
                c2, b = self.pat(fr, q, sv, spl)
                c = AND(c, c2)
                out += b
            return c, out
        if k == 'Leaf':
            if 't' in p:
                self.own(v, fr.types[p['t']])
            c, out = TRUE, []
            for n, q in p['f']:
                sv = fld(v, n)
                if self.isref(sv) and False:
                    pass
                spl = self.refproj(pl, mk('pr', 'f', str(n), '')) if pl is not None and self.isref(pl) and not self.isref(sv) else None
                c2, b = self.pat(fr, q, sv, spl)
                c = AND(c, c2)
                out += b
            return c, out
        if k == 'Const':
            return self.eqconst(v, p['val']), []
        if k == 'Range':
            return mk('range', v, p['val']), []
        if k == 'Slice':
            pre, mid, suf = p['pre'], p['mid'], p['suf']
            n = len(pre) + len(suf)
            items = list(v.a) if v.op == 'cat' else [v] if v.op == 'yield' else [] if v is NIL else None
            if items is not None and all(x.op == 'yield' for x in items):
                ok = (len(items) == n) if mid is None else len(items) >= n
                if not ok:
                    return FALSE, self.allbinds(fr, p)
                c, out = TRUE, []
                for q, x in zip(pre, items):
                    c2, b = self.pat(fr, q, x.a[0], None)
                    c = AND(c, c2)
                    out += b
                if suf:
                    for q, x in zip(suf, items[-len(suf):]):
                        c2, b = self.pat(fr, q, x.a[0], None)
                        c = AND(c, c2)
                        out += b
                if mid:
                    c2, b = self.pat(fr, mid, cat(*items[len(pre):len(items) - len(suf)]), None)
                    c = AND(c, c2)
                    out += b
                return c, out
            ln = length(v)
            if p['arr']:
                c = TRUE
            elif mid is None:
                c = eq(ln, lit('int', n)) if n else NOT(nonempty(v))
            elif n == 1:
                c = nonempty(v)
            elif n == 0:
                c = TRUE
            else:
                c = NOT(lt(ln, lit('int', n)))
            out = []
            for i, q in enumerate(pre):
                c2, b = self.pat(fr, q, self.elem(v, i), None)
                c = AND(c, c2)
                out += b
            for i, q in enumerate(suf):
                j = len(suf) - i
                if mid is None:
                    sv = self.elem(v, len(pre) + i)
                else:
                    sv = idx(v, mk('fromend', j))
                c2, b = self.pat(fr, q, sv, None)
                c = AND(c, c2)
                out += b
            if mid:
                rest = skip(lit('int', len(pre)), v)
                if suf:
                    rest = mk('call', 'dropend', rest, lit('int', len(suf)))
                c2, b = self.pat(fr, mid, rest, None)
                c = AND(c, c2)
                out += b
            return c, out
        if k == 'Or':
            c, merged = FALSE, {}
            order = []
            for q in reversed(p['ps']):
                c2, b = self.pat(fr, q, val, pl)
                for var, bv_ in b:
                    if var in merged:
                        merged[var] = ite(c2, bv_, merged[var])
                    else:
                        merged[var] = bv_
                        order.append(var)
                c = OR(c2, c)
            return c, [(x, merged[x]) for x in order]
        if k == 'Guard':
            c, b = self.pat(fr, p['sub'], val, pl)
            self.setbinds(fr, b)
            return AND(c, self.ev(fr, p['c'])), b
        raise ValueError(k)

    def allbinds(self, fr, p):
        return []

    def elem(self, v, i):
        return self.index(v, lit('int', i))

    def eqconst(self, v, c):
        if c == 'true':
            return v
        if c == 'false':
            return NOT(v)
        m = re.match(r"^Branch\(\[(.*)\]\): (&?'?\w* ?)?str$", c)
        if m:
            bs = bytes(int(z.split('_')[0]) for z in m.group(1).split(', ') if z)
            w = bs.decode('utf8', 'replace')
            return eq(v, slit(w) if w else NIL)
        if c.startswith('"'):
            try:
                import json
                s = json.loads(c)
            except Exception:
                s = c[1:-1]
            return eq(v, slit(s) if s else NIL)
        m = re.match(r'^(-?\d+)(_?[iu](8|16|32|64|128|size))?$', c)
        if m:
            return eq(v, lit('int', int(m.group(1))))
        if c.startswith("'"):
            return eq(v, lit('char', CHAR_ESC.get(c[1:-1], c[1:-1])))
        return eq(v, lit('const', c))

    # ------------------------------------------------------------------ expressions
    def ev(self, fr, e):
        self.n += 1
        if self.n > self.budget:
            raise Budget()
        if self.st.dead:
            return NEVER
        m = e.get('m')
        k = e['k']
        if m and k in ('If', 'Match', 'Block', 'Call') and is_log(m):
            if fr.types[e['t']] == 'bool' if 't' in e else False:
                return FALSE
            return UNIT
        return getattr(self, 'e_' + k)(fr, e)

    def ty(self, fr, e):
        t = e.get('t')
        return fr.types[t] if isinstance(t, int) else ''

    def e_Block(self, fr, e):
        lbl = e.get('lbl')
        if lbl:
            return self.labeled(('brk', lbl, fr.id), lambda: self.block(fr, e))
        return self.block(fr, e)

    def block(self, fr, e):
        for s in e['s']:
            if self.st.dead:
                return NEVER
            if s['k'] == 'E':
                self.ev(fr, s['e'])
            else:
                self.let(fr, s)
        if self.st.dead:
            return NEVER
        return self.ev(fr, e['e']) if e['e'] else UNIT

    def let(self, fr, s):
        if s['i'] is None:
            return
        pl = None
        i = s['i']
        v = self.ev(fr, i)
        if self.st.dead:
            return
        if needs_place(s['p']):
            pl = self.place(fr, i)
        c, b = self.pat(fr, s['p'], v, pl)
        if s['else'] is not None:
            self.branch(c, lambda: UNIT, lambda: self.ev(fr, s['else']))
        if not self.st.dead:
            self.setbinds(fr, b)

    def labeled(self, target, f):
        base = self.st
        self.st = base.fork()
        val = f()
        s = self.st
        cur_val, cur_v, alive = val, s.v, not s.dead
        notmine = TRUE
        for (g, tgt, v, snap) in s.exits:
            if tgt == target:
                notmine = AND(notmine, NOT(g))
            else:
                base.exits.append((AND(notmine, g), tgt, v, snap))
        for (g, tgt, v, snap) in reversed(s.exits):
            if tgt != target:
                continue
            if not alive:
                cur_val, cur_v, alive = v, snap, True
            else:
                cur_val = ite(g, v, cur_val)
                cur_v = self.merge_v(g, snap, cur_v)
        base.v = cur_v
        base.dead = not alive
        self.st = base
        return cur_val if alive else NEVER

    def cond(self, fr, e):
        """evaluate a condition; bindings of `let` sub-conditions are installed in the frame"""
        k = e['k']
        if k == 'Let':
            pl = None
            v = self.ev(fr, e['e'])
            if needs_place(e['p']) :
                pl = self.place(fr, e['e'])
            c, b = self.pat(fr, e['p'], v, pl)
            self.setbinds(fr, b)
            return c
        if k == 'Logic':
            a = self.cond(fr, e['l'])
            if e['op'] == 'And':
                return self.branch(a, lambda: self.cond(fr, e['r']), lambda: FALSE)
            return self.branch(a, lambda: TRUE, lambda: self.cond(fr, e['r']))
        return self.ev(fr, e)

    def e_If(self, fr, e):
        c = self.cond(fr, e['c'])
        if self.st.dead:
            return NEVER
        return self.branch(c, lambda: self.ev(fr, e['th']), lambda: self.ev(fr, e['el']) if e['el'] else UNIT)

    def e_Let(self, fr, e):
        return self.cond(fr, e)

    def e_Logic(self, fr, e):
        return self.cond(fr, e)

    def e_Match(self, fr, e):
        if e['src'] == 'ForLoopDesugar':
            return self.forloop(fr, e)
        if e['src'] == 'TryDesugar':
            return self.tryop(fr, e)
        v = self.ev(fr, e['e'])
        if self.st.dead:
            return NEVER
        pl = self.place(fr, e['e']) if any(needs_place(a['p']) for a in e['arms']) else None

        def arms(i, alive):
            if i >= len(e['arms']):
                return self.unreach()
            a = e['arms'][i]
            c, b = self.pat(fr, a['p'], v, pl)
            if a['g'] is not None:
                def withguard():
                    self.setbinds(fr, b)
                    return self.cond(fr, a['g'])
                c = self.branch(c, withguard, lambda: FALSE)
                if self.st.dead:
                    return NEVER

            def th():
                self.setbinds(fr, b)
                return self.ev(fr, a['b'])
            if i == len(e['arms']) - 1 and a['g'] is None:
                return th()          # exhaustive: the last arm is taken
            return self.branch(c, th, lambda: arms(i + 1, alive))
        return arms(0, TRUE)

    def unreach(self):
        self.st.dead = True
        return NEVER

    def tryop(self, fr, e):
        # match Try::branch(x) { Continue(v) => v, Break(r) => return from_residual(r) }
        sc = e['e']
        x = self.ev(fr, sc['a'][0])
        if self.st.dead:
            return NEVER
        ty = self.ty(fr, sc['a'][0])
        # find the binding target of the `return`: closure or fn frame => ('ret', fr.id)
        return self.try_value(fr, x, ty)

    def try_value(self, fr, x, ty):
        if ty.startswith('core::option::Option'):
            c = isv(x, 'Option', 'Some', VARIANTS['Option'])
            return self.branch(c, lambda: fld(x, '0', 'Some'), lambda: self.exit(('ret', fr.id), NONE))
        c = isv(x, 'Result', 'Ok', VARIANTS['Result'])
        return self.branch(c, lambda: fld(x, '0', 'Ok'),
                           lambda: self.exit(('ret', fr.id), ERRV(self.errpay(fld(x, '0', 'Err')))))

    def errpay(self, v):
        """payload of an error value: texts and locations are erased, kinds are kept"""
        return erase_err(self.closed(v))

    def default_of(self, ty):
        """the default value of a type"""
        m = getattr(self.prog, '_defaults', None)
        if m is None:
            m = self.prog._defaults = {}
            for q in self.prog.bodies:
                if q.endswith(' as core::default::Default>::default'):
                    m.setdefault(q.split('<', 1)[1].split(' as ')[0].split('<')[0], []).append(q)
        qs = m.get(nolt(ty).split('<')[0], ())
        if len(qs) != 1:
            return models.default(ty)
        self.calls.add(qs[0])
        if qs[0] not in self.stack and self.inline(qs[0]) and len(self.stack) < MAXDEPTH:
            return self.inline_body(qs[0], self.prog.bodies[qs[0]], [])
        return self.opaque_call(self.rename.get(qs[0], qs[0]), [], ty, self.effectful.get(qs[0]))

    def is_view(self, ty):
        """a type that holds a mutable borrow: what is done to it is done to what it borrows"""
        m = getattr(self.prog, '_views', None)
        if m is None:
            m = self.prog._views = {nolt(n) for n, a in self.prog.adts.items()
                                    for v in a['v'] for f in v[1] if '&mut ' in a['_t'][f[1]]}
        return nolt(ty).split('<')[0] in m

    def local_iter(self, target, args):
        """into_iter of a type of this repository: looked into on demand"""
        self.calls.add(target)
        if target not in self.stack and self.inline(target) and len(self.stack) < MAXDEPTH:
            return self.inline_body(target, self.prog.bodies[target], args)
        return args[0]

    def forloop(self, fr, e):
        src = e['e']['a'][0]
        it = self.ev(fr, src)
        if self.st.dead:
            return NEVER
        target = self.prog.resolve(e['e']['f'], fr.pre) if e['e']['k'] == 'Call' and e['e'].get('f') else None
        if target is not None:
            it = self.local_iter(target, [it])
        if 't' in src:
            r = unroll(self, it, fr.types[src['t']])
            it = it if r is None else r
        arm = e['arms'][0]
        loop = arm['b']
        while loop['k'] == 'Block':
            loop = loop['e'] or loop['s'][0]['e']
        lbl = loop.get('lbl')
        m = loop['b']
        while m['k'] == 'Block':
            m = m['e'] or m['s'][0]['e']
        some = m['arms'][1] if m['arms'][1]['p'].get('var') == 'Some' else m['arms'][0]
        pat = some['p']['f'][0][1]
        bodye = some['b']

        def body(x):
            c, b = self.pat(fr, pat, x, x if self.isref(x) else None)
            # elements handed out by mutable reference whose place is not known: what is written there is an effect
            held = []
            for j, (var, v) in enumerate(b):
                if var in muts and isinstance(v, T) and not v.refs:
                    r = self.newtmp(v)
                    b[j] = (var, r)
                    held.append((v, r))
            self.setbinds(fr, b)
            self.labeled(('cont', lbl, fr.id), lambda: self.ev(fr, bodye))
            if not self.st.dead:
                for v, r in held:
                    w = self.closed(self.load(r))
                    if w is not v:
                        self.effect(mk('call', 'element-write', v, w), 'E')
            return NIL
        muts = mut_binds(fr, pat)
        self.iterate(it, body, brk=('brk', lbl, fr.id))
        return UNIT

    def e_Loop(self, fr, e):
        lbl = e.get('lbl')
        brk, cont = ('brk', lbl, fr.id), ('cont', lbl, fr.id)
        r = self.while_next(fr, e, lbl) or self.while_index(fr, e, lbl)
        if r is not None:
            return r

        def body():
            return self.labeled(cont, lambda: self.ev(fr, e['b']))
        return self.generic_loop(None, lambda x: body(), brk, always=True)

    def while_shape(self, e):
        """while COND { BODY }  ->  (COND, BODY)"""
        i = peel(e['b'])
        if i['k'] != 'If' or not i['el']:
            return None
        el = peel(i['el'])
        if el['k'] != 'Break' or el.get('e') is not None:
            return None
        return i['c'], i['th']

    def while_next(self, fr, e, lbl):
        """while let Some(PAT) = ITER.next() { BODY }, ITER a local variable not used in BODY"""
        w = self.while_shape(e)
        if not w:
            return None
        c, th = w
        if c['k'] != 'Let' or c['p']['k'] != 'Variant' or c['p'].get('var') != 'Some':
            return None
        call = peel(c['e'])
        if call['k'] != 'Call' or not self.is_fn(call, 'Iterator::next'):
            return None
        a = peel(call['a'][0])
        while a['k'] in ('Borrow', 'Deref', 'Coerce'):
            a = peel(a['e'])
        if a['k'] not in ('Var', 'Up') or ast_any(th, lambda x: x.get('k') in ('Var', 'Up') and x.get('v') == a['v']):
            return None
        key = self.lookup(fr, a['v'])
        it = self.st.v.get(key)
        if it is None:
            return None
        if self.isref(it):
            it = self.load(it)
        pat = c['p']['f'][0][1]

        def body(x):
            cc, b = self.pat(fr, pat, x, x if self.isref(x) else None)
            self.setbinds(fr, b)
            self.labeled(('cont', lbl, fr.id), lambda: self.ev(fr, th))
            return NIL
        self.iterate(it, body, brk=('brk', lbl, fr.id))
        self.st.v[key] = mk('call', 'rest', self.closed(it)) if ast_any(th, lambda x: x.get('k') == 'Break') else NIL
        return UNIT

    def is_fn(self, call, name):
        f = call.get('f')
        return isinstance(f, dict) and 'p' in f and short(nolt(f['p'])) == name

    def while_index(self, fr, e, lbl):
        """let mut i = A; while i < N { BODY; i += 1 }"""
        w = self.while_shape(e)
        if not w:
            return None
        c, th = peel(w[0]), w[1]
        if c['k'] != 'Bin' or c['op'] not in ('Lt', 'Ne', 'Le'):
            return None
        incl = c['op'] == 'Le'
        l, r = peel(c['l']), c['r']
        if l['k'] not in ('Var', 'Up'):
            return None
        v = l['v']
        isv_ = lambda x: x.get('k') in ('Var', 'Up') and x.get('v') == v
        if th['k'] != 'Block' or th.get('lbl'):
            return None
        ss = list(th['s'])
        if th['e'] is not None:
            last = th['e']
        elif ss and ss[-1]['k'] == 'E':
            last = ss.pop()['e']
        else:
            return None
        last = peel(last)
        if last['k'] != 'AssignOp' or not last['op'].startswith('Add') or not isv_(peel(last['l'])) or peel(last['r'])['k'] != 'Lit':
            return None
        one = self.ev(fr, last['r'])
        if not (one.op == 'lit' and one.a[1] == 1):
            return None
        rest = {'k': 'Block', 's': ss, 'e': None}

        def bad(x):
            if x.get('k') == 'Continue':
                return True
            if x.get('k') in ('Assign', 'AssignOp') and isv_(peel(x['l'])):
                return True
            return x.get('k') == 'Borrow' and x.get('mut') and isv_(peel(x['e']))
        if ast_any(rest, bad):
            return None
        # the bound must not change during the loop
        names = set()
        ast_any(r, lambda x: names.add(x['v']) if x.get('k') in ('Var', 'Up') else False)

        def touched(x):
            if x.get('k') in ('Assign', 'AssignOp'):
                y = peel(x['l'])
                while y['k'] in ('Field', 'Index', 'Deref'):
                    y = peel(y['e'])
                return y.get('v') in names
            if x.get('k') == 'Borrow' and x.get('mut'):
                y = peel(x['e'])
                while y['k'] in ('Field', 'Index', 'Deref', 'Borrow'):
                    y = peel(y['e'])
                return y.get('v') in names
            return False
        if ast_any(rest, touched):
            return None
        key = self.lookup(fr, v)
        i0 = self.st.v.get(key)
        if i0 is None or self.isref(i0):
            return None
        n = self.closed(self.ev(fr, r))
        if incl:
            base = mk('adt', 'core::ops::range::RangeInclusive', '', ('end', 'start'), n, i0)
        else:
            base = mk('adt', 'core::ops::range::Range', '', ('end', 'start'), n, i0)
        saved = fr.alias.get(v)

        def body(x):
            t = self.newtmp(x)
            fr.alias[v] = t.a[0]
            self.ev(fr, rest)
            fr.alias.pop(v, None)
            if saved is not None:
                fr.alias[v] = saved
            return NIL
        self.iterate(base, body, brk=('brk', lbl, fr.id))
        if not self.st.dead:
            self.st.v[key] = mk('call', 'index-after', i0, n) if ast_any(rest, lambda x: x.get('k') == 'Break') else ite(NOT(lt(n, i0)), arith('Add', n, one), i0) if incl else ite(lt(i0, n), n, i0)
        return UNIT

    # ------------------------------------------------------------------ iteration
    def iterate(self, s, body, brk=None):
        """run `body` (element -> stream) for every element of stream s, in order; returns emitted stream"""
        if self.st.dead:
            return NIL
        if self.isref(s):
            if self.load(s).op == 'lazy':
                s = self.load(s)
            else:
                return self.iterate_mut(s, body, brk)
        if s.op == 'lazy':
            b, f = self.lazies[s.a[0]]
            if f is not None:
                return self.iterate(b, lambda x: self.iterate(f(x), body), brk)
        if brk is not None and s.op in ('cat', 'yield', 'ite', 'nil', 'lazy'):
            out = [NIL]

            def run():
                out[0] = self.iterate(s, body, None)
                return UNIT
            self.labeled(brk, run)
            return out[0]
        if s is NIL:
            return NIL
        if s.op == 'lazy':
            return cat(*[self.iterate(x, body) for x in b])
        if s.op == 'yield':
            return body(s.a[0])
        if s.op == 'cat':
            return cat(*[self.iterate(x, body) for x in s.a])
        if s.op == 'ite':
            return self.branch(s.a[0], lambda: self.iterate(s.a[1], body), lambda: self.iterate(s.a[2], body))
        if s.op == 'comp':
            (y,), (b2, inner) = unbind(s)

            def body2(x):
                return self.iterate(subst(inner, {y: x}), body)
            return self.generic_loop(b2, body2, brk)
        if s.op == 'adt' and s.a[0] == 'Option' or s.op == 'first':
            return self.iterate(opt_stream(s), body, brk)
        r = small_range(s)
        if r is not None:
            return self.iterate(r, body, brk)
        return self.generic_loop(s, body, brk)

    def iterate_mut(self, r, body, brk):
        base = self.load(r)
        res = []

        def b(x):
            t = self.newtmp(x)
            o = body(t)
            nv = self.load(t)
            res.append(nv)
            return cat(o, YIELD(mk('$elem', nv)))
        out = self.iterate(base, b, brk)
        # split emitted stream: the `$elem` yields give the new contents
        new = strip_elems(out, True)
        rest = strip_elems(out, False)
        if new is not base:
            self.store(r, new)
        return rest

    def generic_loop(self, base, body, brk=None, always=False):
        """loop over an opaque collection `base` (or an unconditional loop if base is None)"""
        outer = self.st
        x = sym()
        # pass 1: which places does the body change?
        mod = []
        seen = set()
        for _ in range(4):
            self.st = outer.fork()
            for k in mod:
                self.st.v[k] = sym()
            body(x)
            s = self.st
            new = []
            snaps = [s.v] + [sn for (_, t, _, sn) in s.exits]
            for k in outer.v:
                if k in seen:
                    continue
                for sn in snaps:
                    if sn.get(k) is not outer.v[k]:
                        new.append(k)
                        break
            if not new:
                break
            for k in new:
                if k not in seen:
                    seen.add(k)
                    mod.append(k)
        mod = sorted(mod, key=lambda k: (k != 'W', str(type(k)), [str(z).zfill(9) for z in (k if isinstance(k, tuple) else (k,))]))
        accs = {k: sym() for k in mod}
        self.st = outer.fork()
        for k in mod:
            self.st.v[k] = accs[k]
        emitted = body(x)
        s = self.st
        split = self.split_structs(outer, s, mod, accs)
        if not split:
            return self.loop_rest(outer, s, base, x, mod, accs, emitted, brk, always)
        mod, accs, m, parts = split
        emitted = subst(emitted, m)
        n = len(outer.exits)
        r = self.loop_rest(outer, s, base, x, mod, accs, emitted, brk, always)
        done = set()
        for d in [outer.v] + [z[3] for z in outer.exits[n:]]:
            if id(d) in done:
                continue
            done.add(id(d))
            for k, (name, fs) in reversed(parts):
                d[k] = mk('adt', name, '', fs, *[d.get(k + ('f', f), fld(d[k], f)) for f in fs])
            for k, (name, fs) in parts:
                for f in fs:
                    d.pop(k + ('f', f), None)
        return r

    def split_structs(self, outer, s, mod, accs):
        """a loop that rebuilds a struct at every step is a loop over those of its fields that change"""
        mod, accs, m, parts = list(mod), dict(accs), {}, []
        snaps = [s.v] + [z[3] for z in s.exits]
        work = list(mod)
        while work:
            k = work.pop()
            if not isinstance(k, tuple):
                continue
            shapes = set()

            def walk(t):
                if t is accs[k]:
                    return True
                if t.op == 'ite':
                    return walk(t.a[1]) and walk(t.a[2])
                if t.op == 'adt' and t.a[1] == '' and t.a[2]:
                    shapes.add((t.a[0], t.a[2]))
                    return True
                return False
            if not all(walk(d[k]) for d in snaps if d.get(k) is not None) or len(shapes) != 1:
                continue
            name, fs = shapes.pop()
            cur = accs[k]
            syms = [sym() for _ in fs]
            new = mk('adt', name, '', fs, *syms)
            m1 = {cur: new}
            vals = [[subst(fld(subst(d[k], m1), f), m1) for f in fs] if d.get(k) is not None else None for d in snaps]
            changed = [i for i in range(len(fs)) if any(v is not None and v[i] is not syms[i] for v in vals)]
            # fields that never change keep the value they had before the loop
            m1 = {cur: mk('adt', name, '', fs, *[syms[i] if i in changed else fld(outer.v[k], f) for i, f in enumerate(fs)])}
            m = {a: subst(b, m1) for a, b in m.items()}
            m.update(m1)
            vals = [[subst(fld(subst(d[k], m1), f), m1) for f in fs] if d.get(k) is not None else None for d in snaps]
            for d, v in zip(snaps, vals):
                for q in list(d):
                    if cur in getattr(d[q], 'fv', ()):
                        d[q] = subst(d[q], m1)
                if v is not None:
                    for i in changed:
                        d[k + ('f', fs[i])] = v[i]
                d[k] = outer.v[k]
            s.exits[:] = [(subst(g, m1), t, subst(v, m1) if v is not None else None, sn) for (g, t, v, sn) in s.exits]
            mod.remove(k)
            del accs[k]
            for i in changed:
                q = k + ('f', fs[i])
                mod.append(q)
                accs[q] = syms[i]
                outer.v[q] = fld(outer.v[k], fs[i])
                work.append(q)
            parts.append((k, (name, fs)))
        if not parts:
            return None
        return mod, accs, m, parts

    def loop_rest(self, outer, s, base, x, mod, accs, emitted, brk, always):
        panics = [z for z in s.exits if z[1] == 'panic']
        brks = [z for z in s.exits if brk is not None and z[1] == brk]
        rets = [z for z in s.exits if z[1] != 'panic' and not (brk is not None and z[1] == brk)]
        accset = set(accs.values())
        self.st = outer

        def dep(t):
            return bool(t.fv & accset)
        if base is not None:
            for (g, t, v, sn) in panics:
                if not dep(g):
                    outer.exits.append((nonempty(comp(x, base, ite(g, YIELD(UNIT), NIL))), 'panic', PANIC, outer.v))
        simple = base is not None and not brks and not s.dead
        # ---- plain loop over a collection, no early exit
        if simple and not rets:
            newv = {k: s.v[k] for k in mod}
            return self.finish_loop(outer, base, x, accs, newv, emitted)
        # ---- exits whose condition and value do not depend on loop state: "first element such that"
        if base is not None and not dep(emitted):
            ok = True
            g_all = TRUE
            first_s = NIL
            evs = []
            for (g, t, v, sn) in s.exits:
                if t == 'panic':
                    continue
                if dep(g) or (v is not None and dep(v)):
                    ok = False
                    break
                is_brk = brk is not None and t == brk
                # state at the exit must be: unchanged accs (ret) or overwritten by acc-free values (break)
                over = {}
                for k in mod:
                    val = sn.get(k)
                    if val is accs[k]:
                        continue
                    if val is not None and not dep(val):
                        over[k] = val
                    else:
                        ok = False
                evs.append((g, t, v, over, is_brk))
            if s.dead:
                ok = False
            if ok:
                # falls-through updates must not be observable together with an exit: only allow either
                # no fall-through update, or exits that return (state after the loop is only seen without exit)
                ft = [k for k in mod if s.v[k] is not accs[k]]
                observed = [ev for ev in evs if ev[4] or ev[3]]
                if not (ft and observed) and not (ft and any(self.observable(k) for k in ft)):
                    guard = NOT_all = FALSE
                    for (g, *_r) in evs:
                        guard = OR(guard, g)
                    newv = {k: s.v[k] for k in mod}
                    pre = dict(outer.v)
                    # value streams
                    for (g, t, v, over, is_brk) in evs:
                        pass
                    def firstof(sel):
                        st_ = NIL
                        for (g, t, v, over, is_brk) in reversed(evs):
                            st_ = ite(g, YIELD(sel(t, v, over, is_brk)), st_)
                        return first(comp(x, base, st_))
                    anyx = nonempty(comp(x, base, ite(guard, YIELD(UNIT), NIL)))
                    targets = []
                    for ev_ in evs:
                        if ev_[1] not in targets:
                            targets.append(ev_[1])
                    exits_new = []
                    for tg in targets:
                        if len(targets) == 1:
                            cnd = anyx
                        else:
                            cnd = AND(anyx, fld(firstof(lambda t, v, o, ib: TRUE if t == tg else FALSE), '0', 'Some'))
                        val = fld(firstof(lambda t, v, o, ib: v if (t == tg and v is not None) else UNIT), '0', 'Some')
                        snap = dict(pre)
                        for k in mod:
                            if any(k in ev_[3] for ev_ in evs if ev_[1] == tg):
                                snap[k] = fld(firstof(lambda t, v, o, ib: o.get(k, pre[k]) if t == tg else UNIT), '0', 'Some')
                        if brk is not None and tg == brk:
                            brk_merge = (cnd, snap)
                        else:
                            exits_new.append((cnd, tg, val, snap))
                    em = self.finish_loop(outer, base, x, accs, newv, emitted)
                    if brk is not None and brk in targets:
                        cnd, snap = brk_merge
                        outer.v = self.merge_v(cnd, snap, outer.v)
                    outer.exits.extend(exits_new)
                    return em
        # ---- general loop node
        self.opaque.add('loop')
        if s.dead:
            endv = lambda k: NEVER
        else:
            endv = lambda k: s.v[k]
        keys = self.loop_order(mod, accs, x, outer, endv, s)
        parts = []
        init = []
        for k in keys:
            init.append(self.closed_at(outer.v[k], outer))
        st_end = []
        for k in keys:
            st_end.append(self.closed_at(s.v[k], s) if not s.dead else NEVER)
        evs = []
        tgts = []
        gone = FALSE
        for (g, t, v, sn) in s.exits:
            gone = OR(gone, self.closed_at(g, s))
        live = [z for z in s.exits if z[1] != 'panic']
        # variables that only collect a stream are streams emitted by the loop
        collects = {}
        for i, k in enumerate(keys):
            if k in ('W', 'E') or s.dead:
                continue
            ap = append_form(st_end[i], accs[k])
            if ap is None or accs[k] in ap.fv or accs[k] in emitted.fv:
                continue
            if any(accs[k] in z.fv for q, z in zip(keys, st_end) if q != k):
                continue
            if any(accs[k] in self.closed_at(g, s).fv or v is not None and accs[k] in self.closed_at(v, State(sn)).fv for (g, t, v, sn) in live):
                continue
            if any(accs[k] in self.closed_at(sn[q], State(sn)).fv for (g, t, v, sn) in live for q in keys if q != k):
                continue
            if any(sn[k] is not accs[k] and not (t[0] == 'ret' and isinstance(k, tuple) and k[0] == t[1]) for (g, t, v, sn) in live):
                continue
            collects[k] = ap
        st_end = [z for k, z in zip(keys, st_end) if k not in collects]
        init = [z for k, z in zip(keys, init) if k not in collects]
        keys = [k for k in keys if k not in collects]
        # variables set only on leaving (a flag, the element found) are not state of the loop
        flags = {}
        for i, k in enumerate(keys):
            if k in ('W', 'E') or s.dead or st_end[i] is not accs[k]:
                continue
            at = {}
            for (g, t, v, sn) in live:
                z = self.closed_at(sn[k], State(sn))
                if t != 'halt' and z is not accs[k] and (z.fv & (accset | {x}) or at.setdefault(t, z) is not z):
                    at = None
                    break
                if t != 'halt' and z is accs[k] and at.setdefault(t, init[i]) is not init[i]:
                    at = None
                    break
            if at is not None:
                flags[k] = at, init[i]
        if flags:
            m = {accs[k]: z for k, (at, z) in flags.items()}
            keep = [i for i, k in enumerate(keys) if k not in flags]
            keys = [keys[i] for i in keep]
            init = [init[i] for i in keep]
            st_end = [subst(st_end[i], m) for i in keep]
            emitted = subst(emitted, m)
            collects = {k: subst(ap, m) for k, ap in collects.items()}
            gone = subst(gone, m)
        st_end = [ite(gone, NEVER, v) for v in st_end]     # what the state would be after leaving does not matter
        vals = {}
        for (g, t, v, sn) in live:
            if t not in tgts:
                tgts.append(t)
        tgts.sort(key=lambda t: (t != brk, -(t[-1] if isinstance(t[-1], int) else 0), t[0]))
        before = FALSE
        for (g, t, v, sn) in live:
            g, before = AND(NOT(before), self.closed_at(g, s)), OR(before, self.closed_at(g, s))
            st_x = State(sn)
            v = self.closed_at(v if v is not None else UNIT, st_x)
            vals.setdefault(t, []).append(v)
            sx = [NEVER if t == 'halt' and k not in ('W', 'E') else self.closed_at(sn[k], st_x) for k in keys]
            if flags:
                g, v, sx = subst(g, m), subst(v, m), [subst(z, m) for z in sx]
                vals[t][-1] = v
            evs.append([tgts.index(t), g, v, sx])
        # the value of an exit that is the same at every exit is known
        known = {}
        for t, vs in vals.items():
            if all(v is vs[0] for v in vs) and not (vs[0].fv & (accset | {x})):
                known[t] = vs[0]
        merged = []
        shown = {}
        leaving = lambda t: known[t] if t in known else mk('lproj', node_, shown[t]) if t in shown else mk('lval', node_, tgts.index(t))
        for ti, t in enumerate(tgts):      # the exits to one target, as one: the first whose condition holds
            mine = [z for z in evs if z[0] == ti]
            i, g, v, sn = mine[-1]
            for (_, g2, v2, sn2) in reversed(mine[:-1]):
                g, v, sn = OR(g2, g), ite(g2, v2, v), [ite(g2, a, b) for a, b in zip(sn2, sn)]
            g0 = g
            sn = [ite(g0, a, NEVER) for a in sn]
            v = ite(g0, v, NEVER)
            if t not in known and any(z is v for z in sn):
                shown[t] = [z is v for z in sn].index(True)     # the value left with is one of the state
            merged.append(mk('exit', ti, g, UNIT if t in known or t in shown else v, *sn))
        evs = merged
        ss = [x] + [accs[k] for k in keys]
        parts = [base if base is not None else mk('forever'), mk('inits', *init), mk('next', *st_end), mk('exits', *evs)]
        node_ = bind('loop', ss, parts + [NIL])

        def emission(em):
            em = self.closed_at(em, s)
            return mk('lemit', bind('loop', ss, parts + [ite(gone, NEVER, em)]))
        for i, k in enumerate(keys):
            outer.v[k] = mk('lproj', node_, i)
        for k, ap in collects.items():
            outer.v[k] = cat(self.closed_at(outer.v[k], outer), emission(ap))
        alive = base is not None
        for k, (at, z) in flags.items():
            if brk in at:
                outer.v[k] = at[brk] if base is None else ite(mk('pcond', node_, tgts.index(brk)), at[brk], outer.v[k])
        for ti, t in enumerate(tgts):
            cnd = mk('pcond', node_, ti)
            snap = dict(outer.v)
            for k, (at, z) in flags.items():
                snap[k] = at.get(t, z)
            val = leaving(t)
            if brk is not None and t == brk:
                if base is None:
                    alive = True
                    bval = val
                continue
            outer.exits.append((cnd if not (base is None and len(tgts) == 1) else TRUE, t, val, snap))
        if not alive:
            outer.dead = True
            return NEVER
        if always:
            if brk not in tgts:
                return UNIT
            return leaving(brk)
        return emission(emitted) if emitted is not NIL else NIL

    def loop_order(self, keys, accs, x, outer, endv, s):
        """order of the loop's state variables that does not depend on their declaration order"""
        other = mk('sym', '@o')
        me = mk('sym', '@m')

        def sig(k):
            m = {a: other for a in accs.values()}
            m[accs[k]] = me
            m[x] = mk('sym', '@x')
            t = self.closed_at(endv(k), s)
            return (k not in ('W', 'E'), self.closed_at(outer.v[k], outer).key, subst(t, m).key)
        return sorted(keys, key=sig)

    def observable(self, k):
        return False

    def closed_at(self, t, st):
        if not t.refs:
            return t
        old = self.st
        self.st = st if isinstance(st, State) else State(st)
        r = self.closed(t)
        self.st = old
        return r

    def finish_loop(self, outer, base, x, accs, newv, emitted):
        for k in newv:
            newv[k] = self.closed(newv[k]) if newv[k].refs and k in ('W', 'E') else newv[k]
        obase = base
        counters = {k for k in newv if is_inc(newv[k], accs[k])}
        used = set()
        for k in newv:
            if k not in counters:
                used |= newv[k].fv
        used |= emitted.fv
        if any(accs[k] in used for k in counters):
            z = sym()
            m = {accs[k]: arith('Add', outer.v[k], fld(z, '0')) for k in counters}
            m[x] = fld(z, '1')
            newv = {k: (v if k in counters else subst(v, m)) for k, v in newv.items()}
            emitted = subst(emitted, m)
            base, x = mk('zip', NATS, base), z
        ks = [k for k in newv if k not in counters]
        if base.op in ('adt', 'zip'):
            x, base, bs = norm_base(x, base, [newv[k] for k in ks] + [emitted])
            newv = dict([(k, newv[k]) for k in newv if k in counters] + list(zip(ks, bs)))
            emitted = bs[-1]
        accs = dict(accs)
        alla = set(accs.values())
        done = {}
        shared = set(emitted.fv)        # state that something other than itself reads
        for k in newv:
            shared |= newv[k].fv - {accs[k]}

        def state_loop(t, first, em):
            need = list(first)
            fv = set(t.fv)
            i = 0
            while True:
                for k2, a2 in accs.items():
                    if a2 in fv and k2 not in need:
                        need.append(k2)
                if i == len(need):
                    break
                fv = set(newv[need[i]].fv)
                i += 1
            need = self.loop_order(need, accs, x, outer, lambda q: newv[q], outer)
            return need, bind('loop', [x] + [accs[q] for q in need],
                              [base, mk('inits', *[self.closed(outer.v[q]) for q in need]),
                               mk('next', *[self.closed(newv[q]) for q in need]), mk('exits'), em])

        def emission(em):
            em = self.closed(em)
            if em is NIL or not (em.fv & alla):
                return comp(x, base, em)
            self.opaque.add('bundle')
            return mk('lemit', state_loop(em, [], em)[1])
        for k, nv in newv.items():
            acc = accs[k]
            if nv is acc:
                continue
            init = outer.v[k]
            if k in counters:
                done[k] = arith('Add', init, length(obase))
                continue
            ap = append_form(nv, acc)
            if ap is not None and acc not in ap.fv and (not (ap.fv & alla) or acc not in shared):
                done[k] = cat(init, emission(ap))
                continue
            mf = map_form(nv, acc) if nv.op in ('mapset', 'mapext', 'ite') else None
            if mf is not None and not (mf.fv & alla):
                done[k] = mapext(init, comp(x, base, self.closed(mf)))
                continue
            if k in ('W', 'E'):
                effs = eff_form(nv, acc)
                if effs is not None and not (effs.fv & alla):
                    c = comp(x, base, effs)
                    c = mk('foreach', c) if c is not NIL else NIL
                    done[k] = init if c is NIL else terms.eff(init, mk('E', c) if k == 'E' else c)
                    continue
            if not (nv.fv & (alla - {acc})):
                nv = self.closed(nv)
                if x not in nv.fv and acc not in nv.fv:
                    # last write wins
                    done[k] = ite(nonempty(base), nv, init)
                    continue
                done[k] = bind('fold', [acc, x], [base, init, nv])
                continue
            # mutually dependent state: bundle
            self.opaque.add('bundle')
            need, node_ = state_loop(nv, [k], NIL)
            done[k] = mk('lproj', node_, need.index(k))
        em = emission(emitted)
        for k, v in done.items():
            outer.v[k] = v
        return em

    # ------------------------------------------------------------------ simple expression kinds
    def e_Var(self, fr, e):
        k = self.lookup(fr, e['v'])
        v = self.st.v.get(k)
        return v if v is not None else mk('uninit', e['v'])

    e_Up = e_Var

    def e_Never(self, fr, e):
        return self.ev(fr, e['e'])

    def e_Coerce(self, fr, e):
        return self.ev(fr, e['e'])

    def e_Cast(self, fr, e):
        v = self.ev(fr, e['e'])
        if v.op == 'lit':
            return v
        t1, t2 = self.ty(fr, e['e']), self.ty(fr, e)
        if t1 == t2:
            return v
        return mk('cast', v, t2)

    def e_Deref(self, fr, e):
        v = self.ev(fr, e['e'])
        if self.isref(v):
            return self.load(v)
        return v

    def e_Borrow(self, fr, e):
        if e['mut']:
            # two-phase: &mut *r where r is a shared/erased reference
            p = self.place(fr, e['e'])
            if p is None:
                v = self.ev(fr, e['e'])
                if v.op == 'clo':
                    return v
                if e['e']['k'] == 'Deref' :
                    return v
                return self.newtmp(v)
            # reborrow of a variable that already holds a reference through deref is handled by place()
            return p
        if e['e']['k'] == 'Deref':
            v = self.ev(fr, e['e']['e'])
            return self.load(v) if self.isref(v) else v
        return self.ev(fr, e['e'])

    def e_RawBorrow(self, fr, e):
        v = self.ev(fr, e['e'])
        return v

    def e_Field(self, fr, e):
        v = self.ev(fr, e['e'])
        if self.isref(v):
            v = self.load(v)
        self.own(v, self.ty(fr, e['e']))
        return fld(v, e['n'])

    def e_Index(self, fr, e):
        v = self.ev(fr, e['e'])
        return self.index(v, self.ev(fr, e['i']))

    def e_Un(self, fr, e):
        v = self.ev(fr, e['e'])
        if e['op'] == 'Not' and self.ty(fr, e) == 'bool':
            return NOT(v)
        if v.op == 'lit' and e['op'] == 'Neg' and isinstance(v.a[1], int):
            return lit('int', -v.a[1])
        return mk('un', e['op'], v)

    def e_Bin(self, fr, e):
        a, b = self.ev(fr, e['l']), self.ev(fr, e['r'])
        return self.binop(e['op'], self.closed(a), self.closed(b), self.ty(fr, e))

    def binop(self, op, a, b, ty=''):
        if op == 'Eq':
            return eq(a, b)
        if op == 'Ne':
            return NOT(eq(a, b))
        if op == 'Lt':
            return lt(a, b)
        if op == 'Gt':
            return lt(b, a)
        if op == 'Le':
            return NOT(lt(b, a))
        if op == 'Ge':
            return NOT(lt(a, b))
        if ty == 'bool':
            if op == 'BitAnd':
                return AND(a, b)
            if op == 'BitOr':
                return OR(a, b)
            if op == 'BitXor':
                return ite(a, NOT(b), b)
        return arith(op.replace('Unchecked', '').replace('WithOverflow', ''), a, b)

    def e_Assign(self, fr, e):
        v = self.ev(fr, e['r'])
        self.assign(fr, e['l'], v)
        return UNIT

    def assign(self, fr, l, v):
        if self.st.dead:
            return
        if l['k'] in ('Var', 'Up'):
            self.st.v[self.lookup(fr, l['v'])] = v
            return
        p = self.place(fr, l)
        if p is None:
            b = self.ev(fr, l)
            self.effect(mk('call', 'store', self.closed(b), self.closed(v)))
            return
        self.store(p, v)

    def e_AssignOp(self, fr, e):
        r = self.ev(fr, e['r'])
        l = self.ev(fr, e['l'])
        op = e['op'].replace('Assign', '')
        self.assign(fr, e['l'], self.binop(op, l, r, self.ty(fr, e['l'])))
        return UNIT

    def e_Tuple(self, fr, e):
        return mk('tuple', *[self.ev(fr, x) for x in e['a']])

    def e_Array(self, fr, e):
        return cat(*[YIELD(self.ev(fr, x)) for x in e['a']])

    def e_Repeat(self, fr, e):
        v = self.ev(fr, e['e'])
        n = str(e['n']).split('_')[0]
        return repeat(v, lit('int', int(n)) if n.isdigit() else lit('n', e['n']))

    def e_Adt(self, fr, e):
        fs = [(n, self.ev(fr, x)) for n, x in e['f']]
        if self.st.dead:
            return NEVER
        name = adtname(e['adt'])
        if isinstance(e.get('base'), dict):
            b = self.ev(fr, e['base'])
            have = {n for n, _ in fs}
            a = self.prog.adts.get(nolt(e['adt']))
            if a is None:
                r = b
                for n, v in fs:
                    r = upd(r, n, v)
                return r
            for n, *_ in a['v'][0][1]:
                if n not in have:
                    fs.append((n, fld(b, n)))
        if name == 'Result' and e['var'] == 'Err':
            fs = [(n, self.errpay(v)) for n, v in fs]
        b = None if e['var'] else self.recopied(e['adt'], fs)
        if b is not None:
            return b                     # a copy of a value of the same type, field by field
        return adt(name, e['var'], fs)

    def own(self, v, ty):
        """v is a value of the type ty"""
        ty = nolt(ty).strip()
        while ty.startswith('&'):
            ty = ty[1:].strip().removeprefix('mut ').strip()
        self.owner.setdefault(v, set()).add(ty.split('<')[0])

    def recopied(self, ad, fs):
        """the value the fields fs of a new struct ad were all, and in place, read from"""
        a = self.prog.adts.get(nolt(ad))
        if a is None or len(a['v']) != 1 or len(a['v'][0][1]) != len(fs) or not fs or fs[0][1].op != 'fld':
            return None
        b = fs[0][1].a[0]
        if self.owner.get(b) == {nolt(ad)} and all(v.op == 'fld' and v.a[0] is b and v.a[1] == str(n) and not v.a[2] for n, v in fs):
            return b

    def e_Closure(self, fr, e):
        b = self.prog.closure(e['p'], fr.body)
        if b is None:
            self.opaque.add('closure')
            return mk('call', 'closure?', *[self.closed(self.ev(fr, x)) for x in e['up']])
        self.tmp += 1
        self.clos[self.tmp] = (b, fr)
        return mk('clo', self.tmp)

    def e_Lit(self, fr, e):
        t, v = e['lt'], e['v']
        if t == 'str':
            return slit(v)
        if t == 'bool':
            return TRUE if v == 'true' else FALSE
        if t == 'int':
            m = re.match(r'^(-?)(0x[0-9a-fA-F]+|\d+)$', v)
            if m:
                n = int(m.group(2), 0) if m.group(2).startswith('0x') else int(m.group(2))
                return lit('int', -n if m.group(1) else n)
            return lit('int', v)
        return lit(t, v)

    def e_Zst(self, fr, e):
        return mk('zst', self.ty(fr, e))

    def e_Fn(self, fr, e):
        f = e['f']
        k = mk('fn', fnkey(f))
        self.fns[k] = (f, fr, self.ty(fr, e))
        return k

    def e_Const(self, fr, e):
        p = nolt(e['r'] or e['p'])
        if self.prog.bodies.get(fr.pre + p):
            p = fr.pre + p
        b = self.prog.bodies.get(p)
        if b is not None and self.inline(p) and p not in self.stack:
            return self.inline_body(p, b, [])
        if short(p) in ('usize::MAX', 'u32::MAX') :
            pass
        self.calls.add(p)
        return mk('const', self.rename.get(p, p), ','.join(fr.types[i] for i in e['a']) if e['a'] and b is None else '')

    def e_ConstBlock(self, fr, e):
        b = self.prog.closure(e['p'], fr.body)
        if b:
            return self.inline_body(b['p'], b, [])
        return mk('const', nolt(e['p']), '')

    def e_ConstParam(self, fr, e):
        return mk('cparam', e['n'])

    def e_Static(self, fr, e):
        p = fr.pre + nolt(e['p'])
        if p not in self.prog.bodies:
            p = nolt(e['p'])
        b = self.prog.bodies.get(p)
        if b is not None and self.inline(p) and p not in self.stack:
            return self.inline_body(p, b, [])
        self.calls.add(p)
        return mk('static', self.rename.get(p, p))

    def e_Opaque(self, fr, e):
        self.opaque.add(e['n'])
        return mk('opaque', e['n'])

    def e_Return(self, fr, e):
        v = self.ev(fr, e['e']) if e['e'] else UNIT
        if self.st.dead:
            return NEVER
        return self.exit(('ret', fr.id), v)

    def e_Break(self, fr, e):
        v = self.ev(fr, e['e']) if e['e'] else UNIT
        if self.st.dead:
            return NEVER
        return self.exit(('brk', e['lbl'], fr.id), v)

    def e_Continue(self, fr, e):
        return self.exit(('cont', e['lbl'], fr.id), UNIT)

    # ------------------------------------------------------------------ calls
    def e_Call(self, fr, e):
        f = e['f']
        if 'p' not in f:
            fn = self.ev(fr, f['e'])
            args = [self.ev(fr, x) for x in e['a']]
            if self.st.dead:
                return NEVER
            return self.apply(fn, args)
        args = [self.ev(fr, x) for x in e['a']]
        if self.st.dead:
            return NEVER
        r = self.call(fr, f, args, e)
        return r

    def apply(self, fn, args):
        """apply a function value"""
        if self.isref(fn):
            fn = self.load(fn)
        if fn.op == 'ite':
            return self.branch(fn.a[0], lambda: self.apply(fn.a[1], args), lambda: self.apply(fn.a[2], args))
        if fn.op == 'clo':
            b, pfr = self.clos[fn.a[0]]
            if len(self.stack) > MAXDEPTH:
                raise Budget()
            fr = Frame(b, pfr)
            ps = b['params']
            if ps and ps[0]['p'] is None:
                ps = ps[1:]
            if len(ps) != len(args) and len(args) == 1 and len(ps) > 1:
                args = [fld(args[0], i) for i in range(len(ps))]
            self.stack.append(b['p'])

            def run():
                for p, a in zip(ps, args):
                    if p['p'] is not None:
                        self.bindpat(fr, p['p'], a, None)
                return self.ev(fr, b['e'])
            r = self.run_frame(fr, run)
            self.stack.pop()
            return r
        if fn.op == 'fn':
            f, fr, fty = self.fns[fn]
            return self.call(fr, f, list(args), None, fty)
        if fn.op == 'lam':
            n, hgt = fn.a[0], fn.a[1]
            if n == len(args):
                ss, (b,) = unbind(fn)
                return subst(b, dict(zip(ss, args)))
        return self.opaque_call('apply', [fn] + list(args), '')

    def inline_body(self, path, b, args):
        if len(self.stack) > MAXDEPTH:
            raise Budget()
        fr = Frame(b)
        self.stack.append(path)
        r = self.run_frame(fr, lambda: self.body(fr, b, args))
        self.stack.pop()
        return r

    def call(self, fr, f, args, e, fty=None):
        p = nolt(f['p'])
        sp = short(p)
        if f['k'].startswith('Ctor'):
            parts = p.split('::')
            if 'Variant' in f['k']:
                name, var = adtname('::'.join(parts[:-1])), parts[-1]
            else:
                name, var = adtname(p), None
            if name == 'Result' and var == 'Err':
                args = [self.errpay(a) for a in args]
            b = None if var else self.recopied(p, list(enumerate(args)))
            if b is not None:
                return b
            return adt(name, var, [(str(i), a) for i, a in enumerate(args)])
        ety = fr.types[e['t']] if e is not None and 't' in e else ''
        target = self.prog.resolve(f, fr.pre)
        if e is None:
            rt = ''
            if target is not None:
                tb = self.prog.bodies[target]
                rt = tb['_t'][tb['ret']] if isinstance(tb.get('ret'), int) else ''
            else:
                m = re.search(r'-> ([^{}]*) \{', nolt(fty or ''))
                rt = m.group(1) if m else ''
            if rt == 'bool' or rt.startswith(('&mut ', 'core::result::Result<(), ')):
                ety = rt
        tys = [fr.types[i] if isinstance(i, int) else i for i in f['a']]
        m = MODELS.get(sp)
        always = sp in ALWAYS
        if target and '::_::<impl core::ops::' in target and short(target) in MODELS:
            m, always = MODELS[short(target)], True     # generated by bitflags!
        if m is not None and (not target or always):
            r = m(self, fr, f, args, tys, ety)
            if r is not NotImplemented:
                return r
        if sp in IDENT and args:
            if target and sp == 'IntoIterator::into_iter':
                return self.local_iter(target, args)
            if not target or sp in ALWAYS_IDENT:
                return args[0]
        if PANICS.match(sp) and not f['l'] and (p.startswith('core::panicking') or p.startswith('std::rt') or p.startswith('std::panicking') or 'unreachable' in sp or 'expect_failed' in sp):
            return self.exit('panic', PANIC)
        if target is None and f.get('via'):
            vp = nolt(f['via'][0])
            if fr.pre and fr.pre + vp in self.prog.bodies:
                vp = fr.pre + vp
            if vp in self.prog.bodies:
                target = vp
            elif sp in ('Into::into',):
                return args[0]
        if sp in ('Into::into', 'From::from') and target is None:
            return args[0]
        if target is None:
            q = fr.pre + p if fr.pre and fr.pre + p in self.prog.bodies else p
            if q in self.prog.bodies and self.prog.never_overridden(q):
                target = q
        if target is not None:
            self.calls.add(target)
            b = self.prog.bodies[target]
            if sp in ('ToString::to_string',):
                return mk('disp', self.closed(args[0]))
            if target not in self.stack and len(self.stack) < MAXDEPTH and (self.inline(target) or self.is_view(ety) and b['k'] not in ('Ctor',)):
                return self.inline_body(target, b, args)
            if sp in ('Into::into', 'From::from') and len(args) == 1 and not self.effectful.get(target):
                return args[0]      # conversions are determined by the types; their bodies are compared on their own
            return self.opaque_call(self.rename.get(target, target), args, ety, self.effectful.get(target), self.chained(fr, e, ety))
        name = p
        if f.get('t') and not (f['r'] and f['r'][1] == 'item') and tys:
            pass
        if sp == 'ToString::to_string':
            return self.disp(args[0])
        self.calls.add(p)
        if not f['l'] and not p.startswith(('cryptovampire', 'utils', 'logic_formula')):
            name = sp
            # type-directed std functions
            if sp in TYPED:
                name = sp + '[' + ','.join(tys) + ']'
        eff = effect_channel(sp) or self.effectful.get('trait:' + p)
        return self.opaque_call(name, args, ety, eff, self.chained(fr, e, ety))

    def chained(self, fr, e, ety):
        return e is not None and ety.startswith('&mut ') and bool(e.get('a')) and nolt(self.ty(fr, e['a'][0])) == nolt(ety)

    def opaque_call(self, name, args, ety, eff=False, chain=False):
        refs = []
        for a in args:
            self.collect_refs(a, refs)
        cargs = [self.closed(a) for a in args]
        op = 'callb' if ety == 'bool' else 'call'
        t = mk(op, name, *cargs)
        if eff:
            self.effect(t, eff)
        acc = ety.startswith('&mut ') and lens(mk('pr', 'via', name))
        for i, r in enumerate(refs):
            if r.op == 'ref' and not (acc and i == 0):
                c = self.load(r)
                if c.op == 'adt' and any(isinstance(x, T) and x.op == 'ref' for x in c.a[3:]):
                    # a view: what it borrows may be written through it, and it stays a view
                    o = mk('out', t, i)
                    fs = []
                    for k, x in zip(c.a[2], c.a[3:]):
                        if x.op == 'ref':
                            self.store(x, fld(o, k))
                            fs.append((k, x))
                        else:
                            fs.append((k, fld(o, k)))
                    self.store(r, adt(c.a[0], c.a[1], fs))
                else:
                    self.store(r, mk('out', t, i))
        if chain and args and self.isref(args[0]):
            return args[0]              # f(&mut T, ..) -> &mut T hands back its first argument
        if ety.startswith('&mut ') and refs:
            others = [c for a, c in zip(args, cargs) if not self.isref(a)]
            return self.refproj(refs[0], mk('pr', 'via', name, *others))
        if ety.startswith('core::result::Result<(), '):
            # the Ok payload is `()`
            return ite(isv(t, 'Result', 'Ok', VARIANTS['Result']), adt('Result', 'Ok', [('0', UNIT)]),
                       adt('Result', 'Err', [('0', fld(t, '0', 'Err'))]))
        return t

    def disp(self, v):
        v = self.closed(v)
        if v.op in ('slit', 'disp', 'nil'):
            return v
        if v.op == 'cat' and any(x.op in ('slit', 'disp') for x in v.a):
            return v
        if v.op == 'ite':
            return ite(v.a[0], self.disp(v.a[1]), self.disp(v.a[2]))
        if v.op == 'lit' and v.a[0] in ('int', 'char', 'bool'):
            return slit(str(v.a[1]).lower() if v.a[0] == 'bool' else str(v.a[1]))
        return mk('disp', v)

    # helpers used by models
    def opt(self, o, some, none):
        if self.isref(o):
            o = self.load(o)
        c = isv(o, 'Option', 'Some', VARIANTS['Option'])
        return self.branch(c, lambda: some(fld(o, '0', 'Some')), none)

    def res(self, o, ok, err):
        if self.isref(o):
            o = self.load(o)
        c = isv(o, 'Result', 'Ok', VARIANTS['Result'])
        return self.branch(c, lambda: ok(fld(o, '0', 'Ok')), lambda: err(fld(o, '0', 'Err')))

    def lstream(self, v):
        if self.isref(v):
            return self.load(v)
        return v

    def stream(self, v):
        v = self.lstream(v)
        return self.force(v) if v.op == 'lazy' else v

    def force(self, v):
        return self.iterate(v, YIELD)

    def adapt(self, s, f):
        """the stream of f(x) for the elements x of s; evaluated where it is consumed if f has effects or exits"""
        if s.op != 'lazy':
            base = self.st
            self.st = base.fork()
            out = self.iterate(s, f)
            t = self.st
            self.st = base
            if not t.dead and all(z[1] == 'panic' for z in t.exits) and all(t.v.get(k) is v for k, v in base.v.items()):
                base.v = t.v
                base.exits.extend(t.exits)
                return out
        self.tmp += 1
        self.lazies[self.tmp] = (s, f)
        return mk('lazy', self.tmp)

    def smap(self, s, f, brk=None):
        return self.iterate(s, f)


CELL = re.compile(r'^(RefCell|OnceLock|OnceCell|Cell|Atomic|Mutex)')


CHAR_ESC = {"\\'": "'", '\\\\': '\\', '\\n': '\n', '\\t': '\t', '\\r': '\r', '\\0': '\0'}


def effect_channel(sp):
    """None, 'W' (ordered input/output) or 'E' (unordered writes to shared cells)"""
    if EFFECT_SHORT.match(sp):
        return 'E' if CELL.match(sp) else 'W'
    return None


def subst_t(t, a, b):
    if t is a:
        return b
    if t.op == 'eff':
        return terms.eff(subst_t(t.a[0], a, b), t.a[1])
    if t.op == 'ite':
        return ite(t.a[0], subst_t(t.a[1], a, b), subst_t(t.a[2], a, b))
    return t


def mut_binds(fr, p):
    """the variables of a pattern that are mutable references"""
    out = set()

    def w(x):
        if isinstance(x, dict):
            if x.get('k') == 'Bind' and isinstance(x.get('t'), int) and fr.types[x['t']].startswith('&mut '):
                out.add(x['v'])
            for y in x.values():
                w(y)
        elif isinstance(x, list):
            for y in x:
                w(y)
    w(p)
    return out


def is_inc(nv, acc):
    return nv.op == 'ar' and nv.a[0] == 'Add' and len(nv.a) == 3 and acc in nv.a[1:] and any(isinstance(y, T) and y.op == 'lit' and y.a[1] == 1 for y in nv.a[1:])


def ast_any(e, f):
    if isinstance(e, dict):
        if f(e):
            return True
        return any(ast_any(v, f) for v in e.values())
    if isinstance(e, (list, tuple)):
        return any(ast_any(v, f) for v in e)
    return False


def peel(e):
    while True:
        if e['k'] == 'Block' and not e['s'] and e['e'] and not e.get('lbl'):
            e = e['e']
        elif e['k'] == 'Block' and len(e['s']) == 1 and e['s'][0]['k'] == 'E' and not e['e'] and not e.get('lbl'):
            e = e['s'][0]['e']
        elif e['k'] in ('Never', 'Coerce'):
            e = e['e']
        else:
            return e


def eset(t):
    """unordered, idempotent view of an effect chain"""
    def flat(t):
        if t.op == 'eff':
            r = flat(t.a[0])
            e = YIELD(t.a[1])
            return r if e in r else r + [e]
        if t.op == 'ite':
            x, y = flat(t.a[1]), flat(t.a[2])
            out = [e for e in x if e in y]
            out += [ite(t.a[0], e, NIL) for e in x if e not in y]
            out += [ite(t.a[0], NIL, e) for e in y if e not in x]
            return out
        return [] if t.op == 'W0' else [t]
    return mk('eset', *sorted(set(flat(t))))


def effect_summary(prog):
    """functions that (transitively) touch the outside world or shared cells"""
    if getattr(prog, '_effects', None) is not None:
        return prog._effects
    direct, edges = {}, {}
    impls = {}
    for p, b in prog.bodies.items():
        if b.get('trait'):
            impls.setdefault(nolt(b['trait']), []).append(p)
    for p, b in prog.bodies.items():
        if b['k'] == 'Closure':
            continue
        for f in prog.callees(p):
            t = prog.resolve(f, b['_pre'])
            q = nolt(f['p'])
            if t is None and f.get('via'):
                t = nolt(f['via'][0])
                t = t if t in prog.bodies else None
            if t is not None:
                edges.setdefault(t, set()).add(p)
                continue
            ch = effect_channel(short(q))
            if ch:
                direct.setdefault(p, set()).add(ch)
            elif f['l'] or q.startswith(('cryptovampire', 'utils', 'logic_formula')):
                edges.setdefault('trait:' + q, set()).add(p)
    for tm, ps in impls.items():
        for p in ps:
            edges.setdefault(p, set()).add('trait:' + tm)
    out = dict(direct)
    work = [(p, c) for p, cs in direct.items() for c in cs]
    out = {p: set(cs) for p, cs in direct.items()}
    while work:
        p, c = work.pop()
        for q in edges.get(p, ()):
            if c not in out.setdefault(q, set()):
                out[q].add(c)
                work.append((q, c))
    prog._effects = {p: ('W' if 'W' in cs else 'E') for p, cs in out.items()}
    return prog._effects


def strip_elems(s, want):
    if s is NIL:
        return NIL
    if s.op == 'yield':
        e = s.a[0]
        if e.op == '$elem':
            return YIELD(e.a[0]) if want else NIL
        return NIL if want else s
    if s.op == 'cat':
        return cat(*[strip_elems(x, want) for x in s.a])
    if s.op == 'ite':
        return ite(s.a[0], strip_elems(s.a[1], want), strip_elems(s.a[2], want))
    if s.op == 'comp':
        (x,), (b, body) = unbind(s)
        return comp(x, b, strip_elems(body, want))
    return s if not want else NIL


def append_form(nv, acc):
    """nv == acc ++ stream ?  (through ite)"""
    if nv is acc:
        return NIL
    if nv.op == 'cat' and nv.a[0] is acc:
        return cat(*nv.a[1:])
    if nv.op == 'ite':
        a, b = append_form(nv.a[1], acc), append_form(nv.a[2], acc)
        if a is not None and b is not None and acc not in nv.a[0].fv:
            return ite(nv.a[0], a, b)
    return None


def eff_form(nv, acc):
    if nv is acc:
        return NIL
    if nv.op == 'eff':
        a = eff_form(nv.a[0], acc)
        if a is not None:
            return cat(a, YIELD(nv.a[1]))
        return None
    if nv.op == 'ite':
        a, b = eff_form(nv.a[1], acc), eff_form(nv.a[2], acc)
        if a is not None and b is not None and acc not in nv.a[0].fv:
            return ite(nv.a[0], a, b)
    return None


def eta(t):
    """\\x. f(x)  ->  fnv f"""
    if t.op != 'lam':
        return t
    n, hgt, b = t.a
    if b.op in ('call', 'callb') and len(b.a) == 1 + n and all(b.a[1 + i].op == 'bv' and b.a[1 + i].a == (hgt, i) for i in range(n)):
        return mk('fnv', b.a[0])
    return t


def adtname(p):
    p = nolt(p)
    return {'core::option::Option': 'Option', 'core::result::Result': 'Result'}.get(p, p)


def fnkey(f):
    r = f.get('r')
    v = f.get('via')
    return nolt((r and r[0]) or f['p']) + '|' + nolt(f['p']) + ('|' + nolt(v[0]) if v else '') + '|' + str(id(f))


def is_log(m):
    return any(x.startswith('log::') for x in m)


def needs_place(p):
    k = p['k']
    if k == 'Bind':
        return p['mutref'] or (p['sub'] is not None and needs_place(p['sub']))
    if k in ('Variant', 'Leaf'):
        return any(needs_place(q) for _, q in p['f'])
    if k in ('Deref', 'Guard'):
        return needs_place(p['sub'])
    if k == 'Or':
        return any(needs_place(q) for q in p['ps'])
    if k == 'Slice':
        return any(needs_place(q) for q in p['pre'] + p['suf']) or (p['mid'] is not None and needs_place(p['mid']))
    return False


KEEP_ERR = re.compile(r'RunnerError|DiscovererError|BaseError|ConversionError|UnificationError')


def erase_err(v):
    """keep only the kind of an error value; messages and locations are not behaviour we track"""
    if v.op == 'ite':
        return ite(v.a[0], erase_err(v.a[1]), erase_err(v.a[2]))
    if v.op == 'adt' and v.a[1] and KEEP_ERR.search(v.a[0]):
        return mk('errk', v.a[0], v.a[1])
    if v.op == 'fld' and v.a[2] == 'Err':
        return ERR
    return ERR


import models
from models import MODELS, unroll, ALWAYS, ALWAYS_IDENT, TYPED  # noqa: E402
