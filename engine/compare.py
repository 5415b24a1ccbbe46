"""Agreement of the current program with the reviewed reference program, function by function.

Both programs are type-checked syntax trees; every function is mapped to its value graph
(eval.Ev) and the graphs are compared.  A helper that exists in one program only, or whose own
graph differs, is inlined on both sides before a difference is believed.
"""
import re, time, hashlib
import terms
from terms import *
from prog import Prog, short, nolt
from eval import Ev, Budget, effect_summary

STEP = 250000            # live terms one evaluation may add
LOCAL = ('cryptovampire', 'utils', 'logic_formula', 'indistinguishability', 'bin:', '<cryptovampire', '<utils', '<logic_formula', '<&')

# operators of the value graph that summarise a construct the analysis does not interpret
VAGUE_OPS = {'loop', 'lproj', 'lval', 'pcond', 'lemit', 'havoc', 'clostn', 'opaque', 'uninit', 'cyc', 'updvia', 'updi', 'out', 'seq'}
# library functions with one meaning and no other common spelling: an unmatched one is a difference
KNOWN_STD = set('''Iterator::skip cell-content cell-write Iterator::take Iterator::rev Iterator::step_by Iterator::take_while Iterator::skip_while Iterator::cycle
Iterator::last Iterator::nth Iterator::min Iterator::max Iterator::sum Iterator::product Itertools::dedup Itertools::unique Itertools::sorted
Itertools::tuples Itertools::tuple_windows Itertools::circular_tuple_windows Itertools::combinations Itertools::tuple_combinations Itertools::permutations slice::chunks slice::windows Itertools::powerset
Vec::pop Vec::truncate Vec::remove Vec::swap_remove Vec::insert Vec::dedup slice::swap slice::reverse slice::sort slice::last VecDeque::pop_front VecDeque::pop_back VecDeque::push_front
HashMap::insert HashMap::get HashMap::remove HashMap::contains_key HashSet::insert HashSet::contains HashSet::remove BTreeMap::insert BTreeMap::get BTreeSet::insert BTreeSet::contains
num::wrapping_add num::saturating_sub num::saturating_add num::wrapping_sub num::checked_sub num::checked_add
str::trim str::lines str::starts_with str::ends_with str::contains str::split str::replace str::to_lowercase str::to_uppercase str::trim_end str::trim_start
Command::arg Command::args Command::new Command::stdin Command::stdout Command::stderr Command::spawn Command::output Command::env Command::kill Child::wait Child::kill Child::wait_with_output
Write::write_all Write::flush File::create File::open fs::write fs::create_dir_all fs::remove_file Path::join Path::exists PathBuf::push process::exit
Duration::as_secs Duration::as_secs_f64 Duration::as_millis Duration::from_secs Duration::from_millis Duration::from_secs_f64 ExitStatus::code ExitStatus::success
Pair::as_str Pair::as_rule Pair::into_inner Pairs::next Pair::as_span
SharedChild::spawn SharedChild::kill SharedChild::wait SharedChild::take_stdout SharedChild::id functions::sleep Sender::send mpsc::channel scoped::scope Scope::spawn ScopedJoinHandle::join
Builder::prefix Builder::suffix Builder::tempfile Builder::keep Regex::new Regex::captures_iter Captures::extract which::which env::var fs::read_to_string Path::is_file Path::parent
OpenOptions::open OpenOptions::create OpenOptions::truncate OpenOptions::write OpenOptions::append Path::to_string_lossy Path::to_str Stdio::piped Stdio::null Stdio::inherit
EGraph::rebuild EGraph::add_expr EGraph::union_trusted EGraph::with_explanations_enabled EGraph::explain_equivalence EGraph::lookup EGraph::equivs EGraph::id_to_expr Rewrite::new Runner::new Runner::run Runner::with_egraph
Searcher::search EClass::parents EClass::iter Subst::get RecExpr::pretty Language::all Language::join_recexprs LanguageChildren::as_slice LanguageChildren::from_vec
f64::ceil f64::floor f64::round f64::trunc f64::max f64::min f64::abs
Itertools::unique_by Itertools::dedup_by Itertools::dedup_by_key Itertools::min_set Itertools::max_set
Itertools::duplicates Itertools::duplicates_by Itertools::combinations Itertools::permutations slice::rotate_left slice::rotate_right
Vec::dedup_by Vec::dedup_by_key Vec::resize BTreeMap::first_key_value BTreeMap::last_key_value BTreeMap::pop_first BTreeMap::pop_last
Atomic::fetch_add Arc::strong_count Arc::new_cyclic Arc::into_inner Arc::as_ptr Backtrace::capture panic::resume_unwind Engine::encode downcast_ref::downcast_ref'''.split())

SMALL = 120      # nodes of a short function


def masked(prog, p):
    """fingerprint with the function's own name masked (for renames and moves)"""
    b = prog.bodies[p]
    out = []
    prog._fp(b, b, {}, out, set())
    own = nolt(b['p0'])
    return hashlib.md5('\n'.join(out).replace(own, '$SELF').encode()).hexdigest()


def sig(b):
    t = b['_t']
    return tuple(t[p['t']] for p in b['params'])


class Pair:
    def __init__(self, ref, cur, log=None):
        self.R, self.C = ref, cur
        self.log = log or (lambda *a: None)
        self.memo = {}
        self.stats = {'nf': 0, 'budget': 0}
        self.pairing()

    # ------------------------------------------------------------ which bodies correspond
    def pairing(self):
        R, C = self.R, self.C
        skip = ('Closure', 'AnonConst', 'InlineConst')
        rp = {p for p in R.fn_paths() if R.bodies[p]['k'] not in skip}
        cp = {p for p in C.fn_paths() if C.bodies[p]['k'] not in skip}
        # several bodies under one printed path (macro-generated blocks): pair by content first
        groups = {}
        for side, ps in (('r', rp), ('c', cp)):
            for p in ps:
                groups.setdefault(p.split('#')[0], {'r': [], 'c': []})[side].append(p)
        self.c2r = {}
        for g, d in groups.items():
            if len(d['r']) <= 1 and len(d['c']) <= 1:
                if d['r'] and d['c']:
                    self.c2r[d['c'][0]] = d['r'][0]
                continue
            key = lambda p: int(p.split('#')[1]) if '#' in p else 0
            rs, cs = sorted(d['r'], key=key), sorted(d['c'], key=key)
            byfp = {}
            for p in rs:
                byfp.setdefault(R.fingerprint(p), []).append(p)
            rest = []
            for p in cs:
                l = byfp.get(C.fingerprint(p))
                if l:
                    q = l.pop(0)
                    rs.remove(q)
                    self.c2r[p] = q
                else:
                    rest.append(p)
            for p, q in zip(rest, rs):
                self.c2r[p] = q
        self.r2c = {r: c for c, r in self.c2r.items()}
        self.added = {p for p in cp if p not in self.c2r}
        self.removed = {p for p in rp if p not in self.r2c}
        # renames / moves
        if self.added and self.removed:
            m = {}
            for p in self.removed:
                m.setdefault(masked(R, p), []).append(p)
            for p in sorted(self.added):
                l = m.get(masked(C, p))
                if l:
                    q = l.pop(0)
                    self.c2r[p], self.r2c[q] = q, p
            self.added = {p for p in cp if p not in self.c2r}
            self.removed = {p for p in rp if p not in self.r2c}
        self.changed = sorted(c for c, r in self.c2r.items() if C.fingerprint(c) != R.fingerprint(r) and
                              not (c != r and masked(C, c) == masked(R, r)))
        self.sigchanged = {r for c, r in self.c2r.items() if c in set(self.changed) and sig(C.bodies[c]) != sig(R.bodies[r])}

    # ------------------------------------------------------------ value graphs
    def nf(self, side, rpath, extra):
        """value graph of the function known as `rpath` in the reference; `extra`: reference names to inline"""
        prog = self.R if side == 'r' else self.C
        path = rpath if side == 'r' else self.r2c.get(rpath, rpath)
        k = (side, rpath, extra)
        if k in self.memo:
            return self.memo[k]
        if side == 'r':
            inline = lambda q: q in extra or q in self.removed
            rename = {}
        else:
            inline = lambda q: q in self.added or self.c2r.get(q, q) in extra
            rename = self.c2r
        ev = Ev(prog, inline, budget=400000)
        ev.rename = rename
        self.stats['nf'] += 1
        terms.LIMIT[0] = len(terms._tab) + STEP
        try:
            r = (ev.function(path), frozenset(ev.rename.get(c, c) for c in ev.calls))
        except (Budget, RecursionError):
            self.stats['budget'] += 1
            r = (None, frozenset())
        except Exception as e:          # a construct the evaluator does not handle
            self.stats['crash'] = self.stats.get('crash', 0) + 1
            self.log('evaluator: %s: %s %s' % (rpath, type(e).__name__, e))
            r = (None, frozenset())
        terms.LIMIT[0] = 10 ** 9
        terms.reset_tables()
        self.memo[k] = r
        return r

    def equal(self, rpath, extra):
        """True / False / None (too large)"""
        extra = frozenset(extra) - {rpath}
        a, ca = self.nf('r', rpath, extra)
        b, cb = self.nf('c', rpath, extra)
        if a is None or b is None:
            return None, a, b, ca ^ cb
        if a is b:
            return True, a, b, ca ^ cb
        terms.LIMIT[0] = len(terms._tab) + STEP
        try:
            r = same(a, b, [4000])
        except (Budget, RecursionError):
            r = None
        if not r:
            terms.reset_tables()
            terms.LIMIT[0] = len(terms._tab) + STEP
            try:
                if deep(a, b, [6000], {}):
                    r = True
            except (Budget, RecursionError):
                pass
        terms.LIMIT[0] = 10 ** 9
        terms.reset_tables()
        return r, a, b, ca ^ cb

    def judge(self, rpath, base):
        """(verdict, a, b): verdict True equal, False different, None undecided"""
        extra = set(base)
        last = None
        for rnd in range(5):
            r, a, b, delta = self.equal(rpath, extra)
            if r:
                return True, a, b
            if r is None and last is not None:
                break
            last = (r, a, b) if last is None or r is not None else last
            more = {q for q in delta if self.inlinable(q)} - extra - {rpath}
            if not more and a is not None and b is not None:
                # no function is called by one side only: inline the ones called more often by one side
                more = {q for q in counted(a, b) if self.inlinable(q)} - extra - {rpath}
            if not more:
                break
            extra |= more
        if last[0] is False:
            # functions called on both sides whose results may be related to what is computed elsewhere:
            # first those built on the inlined functions, then all the short ones
            for small in (False, True):
                cs = {q for q in called(last[1]) | called(last[2]) if self.inlinable(q)} - extra - {rpath}
                if small:
                    more = {q for q in cs if self.R.size(q) <= SMALL}
                else:
                    more = {q for q in cs if any(nolt((f['r'] or [f['p']])[0]) in extra for f in self.R.callees(q))}
                if not more:
                    continue
                r, a, b, delta = self.equal(rpath, extra | more)
                if r:
                    return True, a, b
        return last

    def inlinable(self, q):
        return q in self.r2c and q in self.R.bodies and self.R.bodies[q]['k'] in ('Fn', 'AssocFn', 'Const', 'Static', 'AssocConst')

    # ------------------------------------------------------------ whole comparison
    def run(self, deadline=None):
        todo = [self.c2r[c] for c in self.changed]
        self.verdict = {}
        D = set(self.sigchanged)
        for r in todo:
            v, a, b, _ = self.equal(r, self.sigchanged)
            self.verdict[r] = (v, a, b)
            if not v:
                D.add(r)
        for rnd in range(2):
            newD = set()
            for r in sorted(D):
                v = self.judge(r, D)
                self.verdict[r] = v
                if not v[0]:
                    newD.add(r)
            if newD == D or not newD:
                D = newD
                break
            D = newD
        self.findings, self.undecided, self.excused = {}, {}, {}
        for r in sorted(D):
            why = self.excuse(r, D, set(), 3)
            if why:
                self.excused[r] = why
                continue
            v, a, b = self.verdict[r]
            kind, text = self.classify(r, a, b)
            (self.findings if kind else self.undecided)[r] = text
        return self

    # ------------------------------------------------------------ trait implementations that came or went
    def structural(self, keep):
        """overriding methods and destructors that exist in one program only"""
        out = {}
        R, C = self.R, self.C
        for p in sorted(self.added):
            b = C.bodies[p]
            tr = b.get('trait')
            if not tr or b['k'] != 'AssocFn' or not keep(b['file'], p):
                continue
            where = '%s:%d %s' % (b['file'], b['ln'], p)
            if nolt(tr).endswith('ops::drop::Drop'):
                out[p] = (where, 'a destructor was added to a type of the reviewed program')
                continue
            dflt = nolt(tr) + '::' + p.rsplit('::', 1)[1]
            if dflt in C.bodies and dflt in R.bodies and self.has_impl(R, p):
                if not self.default_equal(C, p, dflt):
                    out[p] = (where, 'an override was added that differs from the default method ' + dflt)
        for p in sorted(self.removed):
            b = R.bodies[p]
            tr = b.get('trait')
            if not tr or b['k'] != 'AssocFn' or not keep(b['file'], p):
                continue
            where = '%s %s' % (b['file'], p)
            if nolt(tr).endswith('ops::drop::Drop'):
                out[p] = (where, 'the destructor of a type is gone')
                continue
            dflt = nolt(tr) + '::' + p.rsplit('::', 1)[1]
            if dflt in C.bodies and self.has_impl(C, p):
                if not self.default_equal(R, p, dflt):
                    out[p] = (where, 'an override was removed that differs from the default method ' + dflt)
        return out

    def has_impl(self, prog, p):
        """does `prog` contain the implementation block of the method p?"""
        head = p.split('#')[0].rsplit('::', 1)[0]
        return any(i['trait'] and i['trait'] == head for i in prog.impls)

    def default_equal(self, prog, p, dflt):
        vs = []
        for q in (p, dflt):
            ev = Ev(prog, lambda x: False, budget=400000)
            try:
                vs.append(ev.function(q))
            except Exception:
                return True
            terms.reset_tables()
        try:
            return vs[0] is vs[1] or same(vs[0], vs[1], [4000])
        except Exception:
            return True

    # ------------------------------------------------------------ callers
    def callers(self, side):
        prog = self.R if side == 'r' else self.C
        m = getattr(prog, '_callers', None)
        if m is None:
            m, dyn = {}, set()
            for p in prog.fn_paths():
                b = prog.bodies[p]
                for f in prog.callees(p):
                    t = prog.resolve(f, b['_pre'])
                    if t is None and f.get('via'):
                        q = nolt(f['via'][0])
                        t = q if q in prog.bodies else None
                    if t is not None:
                        m.setdefault(t, set()).add(p)
                    else:
                        dyn.add(nolt(f['p']))
                for q in prog.constrefs(p):
                    m.setdefault(q, set()).add(p)
            prog._callers, prog._dyn = m, dyn
        return m

    def excuse(self, r, D, seen, depth):
        """a differing helper is harmless when every caller, with the helper inlined, is unchanged"""
        if depth == 0 or r in seen:
            return None
        seen = seen | {r}
        c = self.r2c.get(r)
        rb, cb = self.R.bodies[r], self.C.bodies.get(c)
        if rb.get('trait') or rb.get('deftrait') or (cb and cb.get('trait')):
            return None
        cr = {x for x in self.callers('r').get(r, ())}
        cc = {self.c2r.get(x, x) for x in self.callers('c').get(c, ())}
        cs = (cr | cc) - {r}
        if not cs:
            return None
        for q in sorted(cs):
            if q in self.added or q in self.removed:
                continue        # inlined into its own callers, which changed
            if q not in self.R.bodies:
                continue
            v, a, b, _ = self.equal(q, D | seen)
            if v:
                continue
            if not self.excuse(q, D | seen, seen, depth - 1):
                return None
        return 'every caller is unchanged with it inlined (%d)' % len(cs)

    # ------------------------------------------------------------ classification of a difference
    def classify(self, r, a, b):
        if a is None or b is None:
            # value graph too large: compare what the bodies mention
            ha, hb = self.mentions('r', r), self.mentions('c', r)
            if ha != hb:
                return True, 'mentions differ: ' + delta_text(ha, hb)
            return False, 'value graph too large'
        va, vb = vague(a), vague(b)
        if va == vb:
            return True, first_diff(a, b)
        ha, hb = heads(a), heads(b)
        if ha != hb:
            return True, delta_text(ha, hb)
        w = plain_diff(a, b) or unrolled_diff(a, b)
        if w:
            return True, w
        return False, 'uninterpreted constructs differ: %s' % sorted(set(va.items()) ^ set(vb.items()))[:4]

    def mentions(self, side, r):
        prog = self.R if side == 'r' else self.C
        p = r if side == 'r' else self.r2c[r]
        out = set()
        for f in prog.callees(p):
            t = prog.resolve(f, prog.bodies[p]['_pre'])
            n = t or nolt(f['p'])
            if side == 'c':
                n = self.c2r.get(n, n)
            out.add('call ' + n)
        return out


def is_local(n):
    return n.startswith(LOCAL) or ' as cryptovampire' in n


def counted(a, b):
    """the functions that occur a different number of times in the two graphs"""
    n = {}
    for t, d in ((a, 1), (b, -1)):
        for x in ops_in(t):
            if x.op in ('call', 'callb', 'fnv'):
                q = str(x.a[0]).split('[')[0]
                n[q] = n.get(q, 0) + d
    return {q for q, k in n.items() if k}


def called(t):
    return {str(x.a[0]).split('[')[0] for x in ops_in(t) if x.op in ('call', 'callb', 'fnv')}


def vague(t):
    out = {}
    for x in ops_in(t):
        if x.op in VAGUE_OPS:
            k = x.op
        elif x.op in ('call', 'callb', 'fnv') and not is_local(str(x.a[0])) and str(x.a[0]).split('[')[0] not in KNOWN_STD:
            k = 'std ' + str(x.a[0])
        else:
            continue
        out[k] = 1
    return out


def plain_diff(a, b, rounds=False):
    """a case, decided by interpreted conditions only, in which the two graphs differ although one of them has
    no uninterpreted construct (both none, or the reference value is a mere selection of its inputs)"""
    known_out = lambda x: x.op == 'out' and x.a[0].op in ('call', 'callb', 'fnv') and not vague1(x.a[0])
    unclear1 = lambda x: vague1(x) and not known_out(x) or rounds and x.op in ('fold', 'comp') and x not in shared[0]
    shared = [()]
    unclear = lambda t: any(unclear1(x) for x in ops_in(t))
    terms.LIMIT[0] = len(terms._tab) + STEP
    n = [1000]

    def go(a, b):
        n[0] -= 1
        if a is b or n[0] < 0:
            return None
        if a.op == b.op and a.op in INJECTIVE and len(a.a) == len(b.a) and all(
                isinstance(x, terms.T) and isinstance(y, terms.T) or x == y for x, y in zip(a.a, b.a)):
            for x, y in zip(a.a, b.a):
                w = isinstance(x, terms.T) and go(x, y)
                if w:
                    return w
            return None
        if rounds:
            shared[0] = ops_in(a) & ops_in(b)
        ats = sorted(v for v in a.atoms | b.atoms if not unclear(v))
        if not ats:
            ua, ub = unclear(a), unclear(b)
            if (not ua and not ub) or (not ua and ub and all(x.op in SELECT for x in ops_in(a))):
                try:
                    if same(a, b, [2000]) or deep(a, b, [2000], {}):
                        return None
                except (Budget, RecursionError):
                    return None
                return first_diff(a, b)
            return None
        v = ats[0]
        for val in (True, False):
            w = go(case(a, v, val), case(b, v, val))
            if w:
                return 'where %s is %s: %s' % (show(v, 3)[:120], val, w)
        return None
    try:
        return go(a, b)
    except (Budget, RecursionError):
        return None
    finally:
        terms.LIMIT[0] = 10 ** 9
        terms.reset_tables()


INJECTIVE = {'RET', 'tuple', 'adt', 'yield'}
UNROLLED = {'lproj', 'lval', 'pcond', 'lemit'}


def unroll(t, k):
    """t with every general loop replaced by its first k rounds; what happens later stays uninterpreted"""
    memo = {}
    more = terms.mk('havoc', 'later')

    def expand(kind, node, i):
        ss, (base, inits, nxt, exits, em) = terms.unbind(node)
        endless = base.op == 'forever'
        later = terms.mk('pcond', more, i) if kind == 'pcond' else more
        if inits.op != 'inits' or nxt.op != 'next' or exits.op != 'exits':
            return None

        def at(j, state):
            m = dict(zip(ss[1:], state))
            if not endless:
                m[ss[0]] = terms.idx(base, terms.lit('int', j))
            put = lambda z: terms.subst(z, m)
            end = {'lproj': lambda: state[i], 'lval': lambda: terms.NEVER, 'pcond': lambda: terms.FALSE, 'lemit': lambda: terms.NIL}[kind]
            if j == k:
                r = later
            else:
                rest = at(j + 1, [put(z) for z in nxt.a])
                r = terms.cat(put(em), rest) if kind == 'lemit' else rest
                for e in reversed(exits.a):
                    ti, g, v, sn = e.a[0], put(e.a[1]), e.a[2], e.a[3:]
                    leaf = {'lproj': lambda: put(sn[i]), 'lval': lambda: put(v) if ti == i else terms.NEVER,
                            'pcond': lambda: terms.TRUE if ti == i else terms.FALSE, 'lemit': lambda: terms.NIL}[kind]()
                    r = terms.ite(g, leaf, r)
            return r if endless else terms.ite(terms.nonempty(terms.skip(terms.lit('int', j), base)), r, end())
        return at(0, list(inits.a))

    def go(t):
        r = memo.get(t)
        if r is not None:
            return r
        if t.op in terms.BINDERS:
            ss, parts = terms.unbind(t)
            parts = [go(x) for x in parts]
            if t.op == 'fold':
                base, r, body = parts
                done = []
                for j in range(k):
                    done.append(r)
                    r = terms.subst(body, {ss[0]: r, ss[1]: terms.idx(base, terms.lit('int', j))})
                r = terms.ite(terms.nonempty(terms.skip(terms.lit('int', k), base)), more, r)
                for j in reversed(range(k)):
                    r = terms.ite(terms.nonempty(terms.skip(terms.lit('int', j), base)), r, done[j])
            else:
                r = terms.rebind(t.op, ss, parts)
        else:
            args = [go(x) if isinstance(x, terms.T) else x for x in t.a]
            r = None
            if t.op in UNROLLED and args[0].op == 'loop':
                r = expand(t.op, args[0], args[1] if len(args) > 1 else 0)
            if r is None:
                r = terms.app(t.op, args)
        memo[t] = r
        return r
    return go(t)


def unrolled_diff(a, b):
    """a case, decided within the first rounds of every loop, in which the two graphs differ"""
    if not any(x.op in UNROLLED for t in (a, b) for x in ops_in(t)):
        return None
    for k in (1, 2):
        terms.LIMIT[0] = len(terms._tab) + STEP
        try:
            x, y = unroll(a, k), unroll(b, k)
        except (Budget, RecursionError):
            return None
        finally:
            terms.LIMIT[0] = 10 ** 9
            terms.reset_tables()
        w = plain_diff(x, y, True)
        if w:
            return 'in the first %d round%s of a loop, ' % (k, 's' * (k > 1)) + w
    return None


SELECT = {'p', 'param', 'fld', 'adt', 'lit', 'slit', 'tuple', 'RET', 'ret', 'W0', 'eset', 'const', 'static', 'nil', 'ref', 'yield', 'cat'}


def error_cases(t):
    """the cases in which a function fails: its outcome with every value of `Ok`, of `Err` and of unknown calls forgotten"""
    seen = []

    def leaf(x):
        if x.op != 'RET':
            return x
        v = x.a[0]

        def out(v):
            if v.op == 'adt' and v.a[1] in ('Ok', 'Err'):
                seen.append(v)
                return terms.TRUE if v.a[1] == 'Ok' else terms.FALSE
            if v is terms.PANIC or v is terms.NEVER:
                return v
            return terms.mk('sym', 'outcome of ' + (str(v.a[0]).split('[')[0] if v.op in ('call', 'callb') else v.op))
        return terms.lift(out, v)
    r = terms.lift(leaf, t)
    if not seen:
        return None
    memo = {}

    def go(t):
        # what a fallible call was given does not matter here, only whether it fails
        if t.op == 'is' and t.a[2] == 'Result' and t.a[0].op in ('call', 'callb'):
            return terms.mk('is', terms.mk('sym', 'outcome of ' + str(t.a[0].a[0]).split('[')[0]), *t.a[1:])
        if t.op != 'ite':
            return t
        if t not in memo:
            memo[t] = terms.ite(go(t.a[0]), go(t.a[1]), go(t.a[2]))
        return memo[t]
    return go(r)


def error_diff(a, b):
    """text if the two graphs fail in different cases"""
    if a is None or b is None:
        return None
    terms.LIMIT[0] = len(terms._tab) + STEP
    try:
        x, y = error_cases(a), error_cases(b)
        if x is None or x is y or y is None and x is None:
            return None
        if y is None:
            return 'failures of the reviewed program are gone'
        if same(x, y, [2000]) or deep(x, y, [2000], {}):
            return None
        return 'fails in different cases: ' + first_diff(x, y)
    except (Budget, RecursionError):
        return None
    finally:
        terms.LIMIT[0] = 10 ** 9
        terms.reset_tables()


def vague1(x):
    return x.op in VAGUE_OPS or x.op in ('call', 'callb', 'fnv') and not is_local(str(x.a[0])) and str(x.a[0]).split('[')[0] not in KNOWN_STD


def heads(t):
    out = set()
    for x in ops_in(t):
        o = x.op
        if o in ('call', 'callb', 'fnv') and (is_local(str(x.a[0])) or str(x.a[0]).split('[')[0] in KNOWN_STD):
            out.add('call ' + x.a[0])
        elif o == 'adt' and x.a[0] not in ('Option', 'Result') and not x.a[0].startswith('core::ops::range'):
            out.add('build ' + x.a[0] + '::' + x.a[1])
        elif o == 'is' and x.a[2] not in ('Option', 'Result'):
            out.add('test ' + x.a[2] + '::' + x.a[1])
        elif o == 'lit' and x.a[0] not in ('bool', 'n') and x.a[1] not in (0, 1):
            out.add('literal %r' % (x.a[1],))
        elif o == 'slit':
            for w in re.findall(r'[^\s]+', x.a[0]):
                out.add('text ' + w)
        elif o in ('const', 'static'):
            out.add(o + ' ' + x.a[0])
        elif o == 'errk':
            out.add('error ' + x.a[0] + '::' + x.a[1])
        elif o == 'fld' and not x.a[1].isdigit():
            out.add('field ' + x.a[1])
    return out


def delta_text(a, b):
    return 'no longer: %s; new: %s' % (', '.join(sorted(a - b)[:6]) or '-', ', '.join(sorted(b - a)[:6]) or '-')


def same(a, b, budget, memo=None):
    """semantic comparison of two value graphs: cofactor expansion on the gate conditions, then structure"""
    if memo is None:
        memo = {}
    if a is b:
        return True
    k = (a, b)
    if k in memo:
        return memo[k]
    budget[0] -= 1
    if budget[0] < 0:
        raise Budget()
    memo[k] = r = same1(a, b, budget, memo)
    return r


def same1(a, b, budget, memo):
    if a.op == 'ite' or b.op == 'ite':
        tops = [x.a[0] for x in (a, b) if x.op == 'ite'] + [x for x in (a, b) if x.op in BOOL_ATOMS]
        v = min(tops)
        return all(same(cof(a, v, val), cof(b, v, val), budget, memo) for val in (True, False))
    if a.op != b.op or len(a.a) != len(b.a):
        return False
    if a.op in BINDERS:
        if a.a[0] != b.a[0]:
            return False
        n = a.a[0]
        ss = [sym() for _ in range(n)]
        pa = [subst(p, {mk('bv', a.a[1], i): s for i, s in enumerate(ss)}) for p in a.a[2:]]
        pb = [subst(p, {mk('bv', b.a[1], i): s for i, s in enumerate(ss)}) for p in b.a[2:]]
        return all(same(x, y, budget, memo) for x, y in zip(pa, pb))
    if a.op == 'eset':
        rest = list(b.a)
        for x in a.a:
            for y in rest:
                if same(x, y, budget, memo):
                    rest.remove(y)
                    break
            else:
                return False
        return True
    if a.op == 'eff' and a.a[1].op == 'E':
        return eff_sets(a, b, lambda x, y: same(x, y, budget, memo))
    if a.op == 'cat' and estream(a) and estream(b):
        return set_eq(a.a, b.a, lambda x, y: same(x, y, budget, memo))
    for x, y in zip(a.a, b.a):
        if isinstance(x, T) and isinstance(y, T):
            if not same(x, y, budget, memo):
                return False
        elif x != y:
            return False
    return True


def deep(a, b, budget, memo):
    """as `same`, with case splits on every condition and the consequences of each case (equal things are
    interchangeable, an Option known to be present is Some of its content, ...)"""
    if a is b:
        return True
    k = (a, b)
    if k in memo:
        return memo[k]
    budget[0] -= 1
    if budget[0] < 0:
        raise Budget()
    r = struct_eq(a, b, budget, memo)
    ats = None
    if not r:
        ats = a.atoms | b.atoms
        if ats:
            b = align(a, b, budget, memo)
            if a is b:
                memo[k] = True
                return True
            v = min(a.atoms | b.atoms)
            u, w = beyond(a, v), beyond(b, v)
            r = (deep(case(a, v, True), case(b, v, True), budget, memo) and
                 (deep(case(u, v, False), case(w, v, False), budget, memo)))
    if not r and ((a is terms.PANIC and undefined(b)) or (b is terms.PANIC and undefined(a))):
        r = True
    if DEBUG and not r and not ats:
        print('   leaf', show(a, 5)[:300], '\n   ----', show(b, 5)[:300])
    memo[k] = r
    return r


DEBUG = False
UNDEF = mk('sym', 'element past the end')


def beyond(t, v):
    """`t` where v does not hold: the element that v says exists is undefined (reading it panics)"""
    if v.op == 'lt' and v.a[1].op == 'len':
        e = mk('idx', v.a[1].a[0], v.a[0])
    elif v.op == 'is' and v.a[1] == 'Some' and v.a[0].op in ('first', 'maplookup'):
        e = fld(v.a[0], '0', 'Some')
    else:
        return t
    return repl(t, e, UNDEF)


def undefined(t):
    if t.op == 'ite':
        return (t.a[1] is terms.PANIC or undefined(t.a[1])) and (t.a[2] is terms.PANIC or undefined(t.a[2]))
    return UNDEF in t.fv


def align(a, b, budget, memo):
    """rename conditions of b that are equal to conditions of a"""
    xs, ys = sorted(a.atoms - b.atoms), sorted(b.atoms - a.atoms)
    if not xs or not ys or len(xs) * len(ys) > 100:
        return b
    for x in xs:
        for y in ys:
            if x.op == y.op and y in b.atoms and len(x.a) == len(y.a) and all(p == q or isinstance(p, T) for p, q in zip(x.a, y.a)):
                if struct_eq(x, y, budget, memo):
                    for p, q in zip(x.a, y.a):
                        if isinstance(p, T) and p is not q and q.size > 2:
                            b = repl(b, q, p)
                    b = repl(b, y, x)
                    break
    return b


def struct_eq(a, b, budget, memo):
    if a.op != b.op:
        return False
    if a.op == 'ite':
        return a.a[0] is b.a[0] and deep(a.a[1], b.a[1], budget, memo) and deep(a.a[2], b.a[2], budget, memo)
    if len(a.a) != len(b.a):
        return False
    if a.op in BINDERS:
        if a.a[0] != b.a[0]:
            return False
        ss = [sym() for _ in range(a.a[0])]
        pa = [subst(p, {mk('bv', a.a[1], i): s for i, s in enumerate(ss)}) for p in a.a[2:]]
        pb = [subst(p, {mk('bv', b.a[1], i): s for i, s in enumerate(ss)}) for p in b.a[2:]]
        return all(deep(x, y, budget, memo) for x, y in zip(pa, pb))
    if a.op == 'eset':
        rest = list(b.a)
        for x in a.a:
            for y in rest:
                if deep(x, y, budget, memo):
                    rest.remove(y)
                    break
            else:
                return False
        return True
    if a.op == 'eff' and a.a[1].op == 'E':
        return eff_sets(a, b, lambda x, y: deep(x, y, budget, memo))
    if a.op == 'cat' and estream(a) and estream(b):
        return set_eq(a.a, b.a, lambda x, y: deep(x, y, budget, memo))
    for x, y in zip(a.a, b.a):
        if isinstance(x, T) and isinstance(y, T):
            if not deep(x, y, budget, memo):
                return False
        elif x != y:
            return False
    return True


def eff_sets(a, b, eq):
    """consecutive effects on shared cells are sets"""
    runs = []
    for t in (a, b):
        es = []
        while t.op == 'eff' and t.a[1].op == 'E':
            es.append(t.a[1])
            t = t.a[0]
        runs.append((es, t))
    (xs, p), (ys, q) = runs
    return set_eq(xs, ys, eq) and eq(p, q)


def set_eq(xs, ys, eq):
    def head(x):
        while x.op in ('E', 'yield', 'foreach'):
            x = x.a[0]
        return x.op, x.a[0] if x.op in ('call', 'callb') else None

    def found(x, i, l):
        l = list(l)
        c = [y for y in l[i:] + l[:i] if head(y) == head(x)]
        return any(x is y for y in c) or any(eq(x, y) for y in c)
    return (len(xs) == len(ys) and all(x is y or head(x) == head(y) and eq(x, y) for x, y in zip(xs, ys)) or
            all(found(x, i, ys) for i, x in enumerate(xs)) and all(found(y, i, xs) for i, y in enumerate(ys)))


def estream(t):
    """a stream of effects on shared cells"""
    if t.op == 'yield':
        return t.a[0].op == 'E'
    if t.op == 'cat':
        return all(estream(x) for x in t.a)
    if t.op == 'ite':
        return estream(t.a[1]) and estream(t.a[2])
    if t.op == 'comp':
        return estream(t.a[-1])
    return t is terms.NIL


def case(t, v, val):
    t = cof(t, v, val)
    if v.op == 'eq' and val:
        x, y = v.a
        for u, w in ((x, y), (y, x)):
            if u.op == 'len' and w.op == 'lit' and isinstance(w.a[1], int) and w.a[1] > 0:
                f = mk('first', u.a[0])
                t = repl(t, f, SOME(fld(f, '0', 'Some')))
        if y.op != 'lit' and x.op != 'lit':
            if y < x:
                x, y = y, x
            t = repl(t, y, x)
    elif v.op == 'is' and v.a[2] in ('Option', 'Result'):
        x = v.a[0]
        if val:
            t = repl(t, x, adt(v.a[2], v.a[1], [('0', fld(x, '0', v.a[1]))]))
        elif v.a[2] == 'Option':
            t = repl(t, x, NONE)
        else:
            t = repl(t, x, ERRV(ERR))
    elif v.op == 'is':
        x, var = v.a[0], v.a[1]
        allv = terms.REG.get(v.a[2], [])
        if not val:
            var = [w for w in allv if w != var][0] if len(allv) == 2 else None
        fs = terms.FIELDS.get((v.a[2], var))
        if fs is not None:
            t = repl(t, x, adt(v.a[2], var, [(f, fld(x, f, var)) for f in fs]))
    return t


def cof(t, v, val):
    if t is v:
        return TRUE if val else FALSE
    return restrict(t, v, val)


def first_diff(a, b, depth=0):
    """text of the smallest differing pair reached by a simultaneous descent"""
    path = []
    n = 0
    while n < 400:
        n += 1
        if a.op == 'ite' and b.op == 'ite' and a.a[0] is b.a[0]:
            if a.a[1] is not b.a[1]:
                path.append('when ' + show(a.a[0], 4)[:120])
                a, b = a.a[1], b.a[1]
            else:
                path.append('unless ' + show(a.a[0], 4)[:120])
                a, b = a.a[2], b.a[2]
            continue
        if a.op == b.op and len(a.a) == len(b.a) and a.op not in ('ite', 'is', 'eq', 'lt'):
            d = [(x, y) for x, y in zip(a.a, b.a) if x is not y and x != y]
            if len(d) >= 1 and isinstance(d[0][0], T) and isinstance(d[0][1], T):
                a, b = d[0]
                continue
        break
    return 'expected %s, found %s%s' % (show(a, 7)[:400], show(b, 7)[:400], (' [' + '; '.join(path[-3:]) + ']') if path else '')
