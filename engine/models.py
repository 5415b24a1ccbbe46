"""Models of library functions (core, alloc, std, itertools, hashbrown) used by the value-flow analysis."""
import re
from terms import *
from prog import short, nolt

MODELS = {}
# modelled even when the callee resolves to an implementation in this repository
ALWAYS = set('''_::bitor _::bitor_assign _::sub _::sub_assign _::union _::insert _::remove _::difference DerefMut::deref_mut PartialEq::eq PartialEq::ne Clone::clone Fn::call FnMut::call_mut FnOnce::call_once
Iterator::map Iterator::filter Iterator::for_each Iterator::collect Iterator::chain Iterator::flat_map Iterator::filter_map
Iterator::any Iterator::all Iterator::find Iterator::find_map Iterator::try_for_each Iterator::enumerate Iterator::zip Iterator::fold Iterator::flatten
Itertools::collect_vec Itertools::try_collect Itertools::map_into Itertools::join
BaseContext::with_message BaseContext::with_context CVContext::with_location CVContext::no_location CVContext::with_pre_location'''.split())
ALWAYS_IDENT = set('''Clone::clone Deref::deref DerefMut::deref_mut AsRef::as_ref Borrow::borrow IntoIterator::into_iter ToOwned::to_owned
VecRef::iter VecRefClone::iter NicerError::debug_continue NicerError::debug_continue_msg PreciseAsRef::precise_as_ref
Iterator::cloned Iterator::copied Itertools::collect_vec Arc::clone'''.split())
TYPED = set('''Default::default Iterator::sum Iterator::product str::parse FromStr::from_str mem::size_of TryFrom::try_from TryInto::try_into
Iterator::collect any::type_name serde_json::from_str serde_json::from_reader'''.split())


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


VECISH = ('alloc::vec::Vec<', 'alloc::boxed::Box<[', 'alloc::rcs::arc::Arc<[', 'alloc::sync::Arc<[', 'alloc::rc::Rc<[', 'utils::arc_into_iter', 'utils::vecref', '[')


# ---- comparison
@model('PartialEq::eq')
def _eq(ev, fr, f, a, tys, ety):
    return eq(ev.closed(a[0]), ev.closed(a[1]))


@model('PartialEq::ne')
def _ne(ev, fr, f, a, tys, ety):
    return NOT(eq(ev.closed(a[0]), ev.closed(a[1])))


PRIM = {'usize', 'u8', 'u16', 'u32', 'u64', 'u128', 'i8', 'i16', 'i32', 'i64', 'isize', '&usize', '&u32', 'std::time::Duration', 'core::time::Duration'}


def _ord(op):
    def g(ev, fr, f, a, tys, ety):
        if tys and tys[0].lstrip('&') in PRIM:
            return ev.binop(op, ev.closed(a[0]), ev.closed(a[1]))
        return NotImplemented
    return g


for n, o in (('lt', 'Lt'), ('le', 'Le'), ('gt', 'Gt'), ('ge', 'Ge')):
    MODELS['PartialOrd::' + n] = _ord(o)


@model('Ord::max', 'Ord::min')
def _max(ev, fr, f, a, tys, ety):
    if not (tys and tys[0] in PRIM):
        return NotImplemented
    x, y = ev.closed(a[0]), ev.closed(a[1])
    c = ev.binop('Lt', x, y)
    return ite(c, y, x) if f['p'].endswith('max') else ite(c, x, y)


@model('Builder::prefix', 'Builder::suffix', 'Builder::keep', 'Builder::rand_bytes', 'Builder::append', 'Builder::disable_cleanup')
def _setter(ev, fr, f, a, tys, ety):
    """the settings of tempfile's builder are independent of each other"""
    if not nolt(f['p']).startswith('tempfile::') or not ev.isref(a[0]):
        return NotImplemented
    ev.store(a[0], upd(ev.load(a[0]), '#' + f['p'].rsplit('::', 1)[1], ev.closed(a[1])))
    return a[0]


@model('Not::not')
def _not(ev, fr, f, a, tys, ety):
    if tys and tys[0].lstrip('&') == 'bool':
        return NOT(a[0])
    return NotImplemented


for tr, o in (('Add::add', 'Add'), ('Sub::sub', 'Sub'), ('Mul::mul', 'Mul'), ('BitOr::bitor', 'BitOr'), ('BitAnd::bitand', 'BitAnd')):
    def _ar_(ev, fr, f, a, tys, ety, o=o):
        if tys and tys[0].lstrip('&') in PRIM | {'bool'}:
            return ev.binop(o, ev.closed(a[0]), ev.closed(a[1]), 'bool' if tys[0].lstrip('&') == 'bool' else '')
        return NotImplemented
    MODELS[tr] = _ar_


for tr, o in (('AddAssign::add_assign', 'Add'), ('SubAssign::sub_assign', 'Sub')):
    def _asg(ev, fr, f, a, tys, ety, o=o):
        if tys and tys[0].lstrip('&') in PRIM and ev.isref(a[0]):
            ev.store(a[0], ev.binop(o, ev.load(a[0]), ev.closed(a[1])))
            return UNIT
        return NotImplemented
    MODELS[tr] = _asg


# ---- function values
@model('Fn::call', 'FnMut::call_mut', 'FnOnce::call_once')
def _callf(ev, fr, f, a, tys, ety):
    tup = a[1]
    if tup.op == 'tuple':
        args = list(tup.a)
    else:
        return ev.opaque_call('apply', a, ety)
    return ev.apply(a[0], args)


# ---- Option
@model('Option::map')
def _(ev, fr, f, a, tys, ety):
    return ev.opt(a[0], lambda x: SOME(ev.apply(a[1], [x])), lambda: NONE)


@model('Option::and_then')
def _(ev, fr, f, a, tys, ety):
    return ev.opt(a[0], lambda x: ev.apply(a[1], [x]), lambda: NONE)


@model('Option::is_some')
def _(ev, fr, f, a, tys, ety):
    return isv(ev.closed(a[0]), 'Option', 'Some', VARIANTS['Option'])


@model('Option::is_none')
def _(ev, fr, f, a, tys, ety):
    return NOT(isv(ev.closed(a[0]), 'Option', 'Some', VARIANTS['Option']))


@model('Option::is_some_and')
def _(ev, fr, f, a, tys, ety):
    return ev.opt(a[0], lambda x: ev.apply(a[1], [x]), lambda: FALSE)


@model('Option::is_none_or')
def _(ev, fr, f, a, tys, ety):
    return ev.opt(a[0], lambda x: ev.apply(a[1], [x]), lambda: TRUE)


@model('Option::unwrap', 'Option::expect', 'Option::unwrap_unchecked')
def _(ev, fr, f, a, tys, ety):
    return ev.opt(a[0], lambda x: x, lambda: ev.exit('panic', PANIC))


@model('Option::unwrap_or')
def _(ev, fr, f, a, tys, ety):
    return ev.opt(a[0], lambda x: x, lambda: a[1])


@model('Option::unwrap_or_else')
def _(ev, fr, f, a, tys, ety):
    return ev.opt(a[0], lambda x: x, lambda: ev.apply(a[1], []))


@model('Option::unwrap_or_default')
def _(ev, fr, f, a, tys, ety):
    return ev.opt(a[0], lambda x: x, lambda: ev.default_of(ety))


@model('Option::map_or')
def _(ev, fr, f, a, tys, ety):
    return ev.opt(a[0], lambda x: ev.apply(a[2], [x]), lambda: a[1])


@model('Option::map_or_else')
def _(ev, fr, f, a, tys, ety):
    return ev.opt(a[0], lambda x: ev.apply(a[2], [x]), lambda: ev.apply(a[1], []))


@model('Option::ok_or')
def _(ev, fr, f, a, tys, ety):
    return ev.opt(a[0], lambda x: OK(x), lambda: ERRV(ev.errpay(a[1])))


@model('Option::ok_or_else')
def _(ev, fr, f, a, tys, ety):
    return ev.opt(a[0], lambda x: OK(x), lambda: ERRV(ev.errpay(ev.apply(a[1], []))))


@model('BaseContext::with_message', 'BaseContext::with_context', 'CVContext::with_location', 'CVContext::no_location', 'CVContext::with_pre_location')
def _(ev, fr, f, a, tys, ety):
    t = nolt(tys[0]) if tys else ''
    if t.startswith('core::option::Option<'):
        return ev.opt(a[0], lambda x: OK(x), lambda: ERRV(ERR))
    if t.startswith('core::result::Result<'):
        return ev.res(a[0], lambda x: OK(x), lambda e: ERRV(ERR))
    return NotImplemented


@model('Option::or')
def _(ev, fr, f, a, tys, ety):
    return ev.opt(a[0], lambda x: SOME(x), lambda: a[1])


@model('Option::or_else')
def _(ev, fr, f, a, tys, ety):
    return ev.opt(a[0], lambda x: SOME(x), lambda: ev.apply(a[1], []))


@model('Option::and')
def _(ev, fr, f, a, tys, ety):
    return ev.opt(a[0], lambda x: a[1], lambda: NONE)


@model('Option::filter')
def _(ev, fr, f, a, tys, ety):
    return ev.opt(a[0], lambda x: ev.branch(ev.apply(a[1], [x]), lambda: SOME(x), lambda: NONE), lambda: NONE)


@model('Option::flatten')
def _(ev, fr, f, a, tys, ety):
    return ev.opt(a[0], lambda x: x, lambda: NONE)


@model('Option::zip')
def _(ev, fr, f, a, tys, ety):
    return ev.opt(a[0], lambda x: ev.opt(a[1], lambda y: SOME(mk('tuple', x, y)), lambda: NONE), lambda: NONE)


@model('Option::transpose')
def _(ev, fr, f, a, tys, ety):
    return ev.opt(a[0], lambda x: ev.res(x, lambda y: OK(SOME(y)), lambda z: ERRV(ev.errpay(z))), lambda: OK(NONE))


@model('Option::iter', 'Option::into_iter')
def _(ev, fr, f, a, tys, ety):
    return opt_stream(ev.closed(a[0]))


@model('Option::take')
def _(ev, fr, f, a, tys, ety):
    if ev.isref(a[0]):
        v = ev.load(a[0])
        ev.store(a[0], NONE)
        return v
    return NotImplemented


@model('Option::insert', 'Option::replace')
def _(ev, fr, f, a, tys, ety):
    if ev.isref(a[0]):
        v = ev.load(a[0])
        ev.store(a[0], SOME(a[1]))
        return v if short(nolt(f['p'])) == 'Option::replace' else NotImplemented if False else a[0]
    return NotImplemented


@model('mem::replace')
def _(ev, fr, f, a, tys, ety):
    if ev.isref(a[0]):
        v = ev.load(a[0])
        ev.store(a[0], a[1])
        return v
    return NotImplemented


@model('mem::take')
def _(ev, fr, f, a, tys, ety):
    if ev.isref(a[0]):
        v = ev.load(a[0])
        ev.store(a[0], ev.default_of(tys[0] if tys else ''))
        return v
    return NotImplemented


@model('mem::drop')
def _(ev, fr, f, a, tys, ety):
    return UNIT


def default(ty):
    if ty.startswith(VECISH) or ty.startswith('alloc::string::String') or ty.startswith('&str'):
        return NIL
    if ty.startswith('core::option::Option'):
        return NONE
    if ty == 'bool':
        return FALSE
    if ty in PRIM:
        return lit('int', 0)
    if 'Hash' in ty.split('<')[0] or 'BTree' in ty.split('<')[0]:
        return emptymap(ty)
    return mk('call', 'Default::default[' + ty + ']')


@model('Default::default')
def _(ev, fr, f, a, tys, ety):
    if ev.prog.resolve(f, fr.pre):
        return NotImplemented
    return ev.default_of(tys[0])


# ---- Result
@model('Result::map')
def _(ev, fr, f, a, tys, ety):
    return ev.res(a[0], lambda x: OK(ev.apply(a[1], [x])), lambda x: ERRV(ev.errpay(x)))


@model('Result::and_then')
def _(ev, fr, f, a, tys, ety):
    return ev.res(a[0], lambda x: ev.apply(a[1], [x]), lambda x: ERRV(ev.errpay(x)))


@model('Result::map_err')
def _(ev, fr, f, a, tys, ety):
    return ev.res(a[0], lambda x: OK(x), lambda x: ERRV(ev.errpay(ev.apply(a[1], [x]))))


@model('Result::ok')
def _(ev, fr, f, a, tys, ety):
    return ev.res(a[0], lambda x: SOME(x), lambda x: NONE)


@model('Result::err')
def _(ev, fr, f, a, tys, ety):
    return ev.res(a[0], lambda x: NONE, lambda x: SOME(x))


@model('Result::is_ok')
def _(ev, fr, f, a, tys, ety):
    return isv(ev.closed(a[0]), 'Result', 'Ok', VARIANTS['Result'])


@model('Result::is_err')
def _(ev, fr, f, a, tys, ety):
    return NOT(isv(ev.closed(a[0]), 'Result', 'Ok', VARIANTS['Result']))


@model('Result::unwrap', 'Result::expect', 'NicerError::unwrap_display', 'NicerError::expect_display')
def _(ev, fr, f, a, tys, ety):
    return ev.res(a[0], lambda x: x, lambda x: ev.exit('panic', PANIC))


@model('Result::unwrap_or')
def _(ev, fr, f, a, tys, ety):
    return ev.res(a[0], lambda x: x, lambda x: a[1])


@model('Result::unwrap_or_else')
def _(ev, fr, f, a, tys, ety):
    return ev.res(a[0], lambda x: x, lambda x: ev.apply(a[1], [x]))


@model('Result::unwrap_or_default')
def _(ev, fr, f, a, tys, ety):
    return ev.res(a[0], lambda x: x, lambda x: ev.default_of(ety))


@model('Result::or_else')
def _(ev, fr, f, a, tys, ety):
    return ev.res(a[0], lambda x: OK(x), lambda x: ev.apply(a[1], [x]))


@model('Result::or')
def _(ev, fr, f, a, tys, ety):
    return ev.res(a[0], lambda x: OK(x), lambda x: a[1])


@model('Result::and')
def _(ev, fr, f, a, tys, ety):
    return ev.res(a[0], lambda x: a[1], lambda x: ERRV(ev.errpay(x)))


@model('Result::is_ok_and')
def _(ev, fr, f, a, tys, ety):
    return ev.res(a[0], lambda x: ev.apply(a[1], [x]), lambda x: FALSE)


@model('Result::transpose')
def _(ev, fr, f, a, tys, ety):
    return ev.res(a[0], lambda x: ev.opt(x, lambda y: SOME(OK(y)), lambda: NONE), lambda x: SOME(ERRV(ev.errpay(x))))


@model('bool::then')
def _(ev, fr, f, a, tys, ety):
    return ev.branch(a[0], lambda: SOME(ev.apply(a[1], [])), lambda: NONE)


@model('bool::then_some')
def _(ev, fr, f, a, tys, ety):
    return ite(a[0], SOME(a[1]), NONE)


# ---- streams
@model('Iterator::map', 'array::map')
def _(ev, fr, f, a, tys, ety):
    return ev.adapt(ev.lstream(a[0]), lambda x: YIELD(ev.apply(a[1], [x])))


@model('Itertools::map_into')
def _(ev, fr, f, a, tys, ety):
    return ev.stream(a[0])


@model('Iterator::filter')
def _(ev, fr, f, a, tys, ety):
    return ev.adapt(ev.lstream(a[0]), lambda x: ev.branch(ev.apply(a[1], [x]), lambda: YIELD(x), lambda: NIL))


@model('Iterator::filter_map')
def _(ev, fr, f, a, tys, ety):
    return ev.adapt(ev.lstream(a[0]), lambda x: opt_stream(ev.apply(a[1], [x])))


@model('Iterator::flat_map')
def _(ev, fr, f, a, tys, ety):
    if len(tys) > 1 and tys[1].startswith('core::option::Option<'):
        return ev.adapt(ev.lstream(a[0]), lambda x: opt_stream(ev.closed(ev.apply(a[1], [x]))))
    return ev.adapt(ev.lstream(a[0]), lambda x: as_stream(ev, ev.apply(a[1], [x])))


def as_stream(ev, s):
    s = ev.stream(s)

    def one(s):
        if s.op == 'adt' and s.a[0] == 'Option':
            return opt_stream(s)
        if s.op in ('yield', 'cat', 'comp', 'nil', 'slit'):
            return s
        y = sym()
        return s
    return lift(one, s)


@model('Iterator::flatten')
def _(ev, fr, f, a, tys, ety):
    s = ev.stream(a[0])
    it = tys[0] if tys else ''
    if 'core::option::Option' in it and 'Vec' not in it:
        return ev.iterate(s, lambda x: opt_stream(x))
    return ev.iterate(s, lambda x: emb(x))


def emb(x):
    """a collection value used as a stream"""
    if x.op == 'adt' and x.a[0] == 'Option':
        return opt_stream(x)
    return x


@model('Iterator::chain', 'free::chain')
def _(ev, fr, f, a, tys, ety):
    x, y = ev.lstream(a[0]), ev.lstream(a[1])
    if x.op == 'lazy' or y.op == 'lazy':
        ev.tmp += 1
        ev.lazies[ev.tmp] = ([emb(x), emb(y)], None)
        return mk('lazy', ev.tmp)
    return cat(emb(x), emb(y))


@model('iter::once', 'once::once')
def _(ev, fr, f, a, tys, ety):
    return YIELD(a[0])


@model('iter::empty', 'empty::empty')
def _(ev, fr, f, a, tys, ety):
    return NIL


@model('Itertools::chain_none', 'itertools::chain')
def _(ev, fr, f, a, tys, ety):
    return cat(emb(ev.stream(a[0])), emb(ev.stream(a[1])))


def vecty(t):
    return t.startswith(VECISH) or t == '_'


@model('Iterator::collect', 'FromIterator::from_iter', 'Itertools::try_collect', 'Itertools::collect_array_none')
def _(ev, fr, f, a, tys, ety):
    sp = short(nolt(f['p']))
    s = ev.lstream(a[0])
    if sp == 'FromIterator::from_iter':
        ty = tys[0] if tys else ety
    else:
        ty = ety
    return collect(ev, s, ty)


def collect(ev, s, ty):
    if s.op == 'lazy' and ty.startswith(('core::result::Result<', 'core::option::Option<')):
        isr = ty.startswith('core::result::Result<')
        ev.tmp += 1
        tag = ('ret', 'col%d' % ev.tmp)

        def one(x):
            if isr:
                return ev.res(x, lambda v: YIELD(v), lambda e: ev.exit(tag, ERRV(ev.errpay(e))))
            return ev.opt(x, lambda v: YIELD(v), lambda: ev.exit(tag, NONE))

        def run():
            good = ev.iterate(s, one)
            if ev.st.dead:
                return NEVER
            inner = collect(ev, good, ty[len('core::result::Result<' if isr else 'core::option::Option<'):])
            return OK(inner) if isr else SOME(inner)
        return ev.labeled(tag, run)
    if s.op == 'lazy':
        s = ev.force(s)
    if ty.startswith('core::result::Result<'):
        bad = ev.iterate(s, lambda x: ev.branch(isv(x, 'Result', 'Ok', VARIANTS['Result']), lambda: NIL, lambda: YIELD(UNIT)))
        good = ev.iterate(s, lambda x: YIELD(fld(x, '0', 'Ok')))
        inner = collect(ev, good, ty[len('core::result::Result<'):])
        return ite(nonempty(bad), ERRV(ERR), OK(inner))
    if ty.startswith('core::option::Option<'):
        bad = ev.iterate(s, lambda x: ev.branch(isv(x, 'Option', 'Some', VARIANTS['Option']), lambda: NIL, lambda: YIELD(UNIT)))
        good = ev.iterate(s, lambda x: YIELD(fld(x, '0', 'Some')))
        inner = collect(ev, good, ty[len('core::option::Option<'):])
        return ite(nonempty(bad), NONE, SOME(inner))
    head = ty.split('<')[0]
    if 'HashMap' in head or 'HashSet' in head or 'BTree' in head:
        s = ev.closed(s)
        if 'Set' in head:
            s = ev.iterate(s, lambda x: YIELD(mk('tuple', x, UNIT)))
        return mapext(emptymap(head), s)
    if head.endswith('String'):
        return ev.closed(s)
    if vecty(ty) or head in ('I', 'C', 'B', 'U'):
        return s
    if 'cryptovampire' in head or 'utils' in head or 'logic_formula' in head:
        return mk('collect', head.split('::')[-1], ev.closed(s))
    return s


@model('Itertools::collect_vec')
def _(ev, fr, f, a, tys, ety):
    return ev.stream(a[0])


@model('Iterator::for_each')
def _(ev, fr, f, a, tys, ety):
    def b(x):
        ev.apply(a[1], [x])
        return NIL
    ev.iterate(ev.lstream(a[0]), b)
    return UNIT


@model('Iterator::try_for_each')
def _(ev, fr, f, a, tys, ety):
    tag = ('ret', 'tfe%d' % id(f), ev.n)
    isopt = ety.startswith('core::option')

    def b(x):
        r = ev.apply(a[1], [x])
        if isopt:
            ev.branch(isv(r, 'Option', 'Some', VARIANTS['Option']), lambda: UNIT, lambda: ev.exit(tag, NONE))
        else:
            ev.branch(isv(r, 'Result', 'Ok', VARIANTS['Result']), lambda: UNIT, lambda: ev.exit(tag, ERRV(ev.errpay(fld(r, '0', 'Err')))))
        return NIL

    def run():
        ev.iterate(ev.lstream(a[0]), b)
        return SOME(UNIT) if isopt else OK(UNIT)
    return ev.labeled(tag, run)


def _pred(ev, s, p):
    return ev.iterate(s, lambda x: ev.branch(p(x), lambda: YIELD(x), lambda: NIL))


def search(ev, f, s, hit, default):
    """the consumer stops at the first element for which hit(x) returns a value (not None)"""
    tag = ('ret', 'search%d' % id(f), ev.n)

    def run():
        ev.iterate(s, lambda x: (hit(x, lambda v: ev.exit(tag, v)), NIL)[1])
        return default
    return ev.labeled(tag, run)


@model('Iterator::any')
def _(ev, fr, f, a, tys, ety):
    return search(ev, f, ev.stream(a[0]), lambda x, out: ev.branch(ev.apply(a[1], [x]), lambda: out(TRUE), lambda: UNIT), FALSE)


@model('Iterator::all')
def _(ev, fr, f, a, tys, ety):
    return search(ev, f, ev.stream(a[0]), lambda x, out: ev.branch(ev.apply(a[1], [x]), lambda: UNIT, lambda: out(FALSE)), TRUE)


@model('Iterator::find')
def _(ev, fr, f, a, tys, ety):
    return search(ev, f, ev.stream(a[0]), lambda x, out: ev.branch(ev.apply(a[1], [x]), lambda: out(SOME(x)), lambda: UNIT), NONE)


@model('Iterator::find_map')
def _(ev, fr, f, a, tys, ety):
    def hit(x, out):
        r = ev.apply(a[1], [x])
        return ev.branch(isv(r, 'Option', 'Some', VARIANTS['Option']), lambda: out(SOME(fld(r, '0', 'Some'))), lambda: UNIT)
    return search(ev, f, ev.stream(a[0]), hit, NONE)


@model('slice::first', 'VecDeque::front')
def _(ev, fr, f, a, tys, ety):
    return first(ev.closed(a[0]))


@model('Iterator::next')
def _(ev, fr, f, a, tys, ety):
    if ev.prog.resolve(f, fr.pre):
        return NotImplemented
    if ev.isref(a[0]):
        s = ev.load(a[0])
        if s.op in ('cat', 'yield', 'nil', 'comp'):
            r = first(s)
            if s.op == 'cat' and s.a[0].op == 'yield':
                ev.store(a[0], cat(*s.a[1:]))
            elif s.op == 'yield':
                ev.store(a[0], NIL)
            elif s is not NIL:
                ev.store(a[0], skip(lit('int', 1), s))
            return r
        ev.store(a[0], skip(lit('int', 1), s))
        return mk('first', s)
    return first(a[0])


@model('Peekable::peek')
def _(ev, fr, f, a, tys, ety):
    s = ev.load(a[0]) if ev.isref(a[0]) else a[0]
    return NotImplemented if s.op in ('lazy', 'ref', 'ite') else first(s)


@model('slice::contains', 'Itertools::contains')
def _(ev, fr, f, a, tys, ety):
    s = ev.closed(a[0])
    y = ev.closed(a[1])
    return nonempty(ev.iterate(s, lambda x: ite(eq(x, y), YIELD(UNIT), NIL)))


@model('slice::is_empty', 'Vec::is_empty', 'ExactSizeIterator::is_empty', 'String::is_empty', 'str::is_empty', 'VecDeque::is_empty', 'HashSet::is_empty', 'HashMap::is_empty', 'BTreeMap::is_empty')
def _(ev, fr, f, a, tys, ety):
    return NOT(nonempty(ev.closed(a[0])))


@model('slice::len', 'Vec::len', 'ExactSizeIterator::len', 'Iterator::count', 'VecDeque::len')
def _(ev, fr, f, a, tys, ety):
    return length(ev.closed(a[0]))


@model('Iterator::fold')
def _(ev, fr, f, a, tys, ety):
    t = ev.newtmp(a[1])

    def b(x):
        ev.store(t, ev.apply(a[2], [ev.load(t), x]))
        return NIL
    ev.iterate(ev.lstream(a[0]), b)
    return ev.load(t)


@model('Itertools::fold_options', 'Itertools::fold_ok')
def _(ev, fr, f, a, tys, ety):
    t = ev.newtmp(a[1])
    tag = ('ret', 'fo%d' % id(f), ev.n)
    src = ev.lstream(a[0])
    isopt = ety.startswith('core::option')

    def b(x):
        if isopt:
            v = ev.opt(x, lambda y: y, lambda: ev.exit(tag, NONE))
        else:
            v = ev.res(x, lambda y: y, lambda e: ev.exit(tag, ERRV(ev.errpay(e))))
        if not ev.st.dead:
            v = ev.apply(a[2], [ev.load(t), v])
        if not ev.st.dead:
            ev.store(t, v)
        return NIL

    def run():
        ev.iterate(src, b)
        v = ev.load(t)
        return SOME(v) if isopt else OK(v)
    return ev.labeled(tag, run)


@model('Iterator::try_fold')
def _(ev, fr, f, a, tys, ety):
    t = ev.newtmp(a[1]) 
    tag = ('ret', 'tf%d' % id(f), ev.n)
    src = ev.lstream(a[0])
    isopt = ety.startswith('core::option')

    def b(x):
        r = ev.apply(a[2], [ev.load(t), x])
        if isopt:
            v = ev.branch(isv(r, 'Option', 'Some', VARIANTS['Option']), lambda: fld(r, '0', 'Some'), lambda: ev.exit(tag, NONE))
        else:
            v = ev.branch(isv(r, 'Result', 'Ok', VARIANTS['Result']), lambda: fld(r, '0', 'Ok'), lambda: ev.exit(tag, ERRV(ev.errpay(fld(r, '0', 'Err')))))
        if not ev.st.dead:
            ev.store(t, v)
        return NIL

    def run():
        ev.iterate(src, b)
        v = ev.load(t)
        return SOME(v) if isopt else OK(v)
    return ev.labeled(tag, run)


def as_nats(s):
    """0.. , k.. -> (k, nats)"""
    if s is NATS:
        return lit('int', 0)
    if s.op == 'adt' and s.a[0].endswith('RangeFrom'):
        return s.a[3]
    return None


def pairs(a, b):
    """zip of two streams; pulled inside element-wise maps"""
    na, nb = as_nats(a), as_nats(b)
    if na is not None and a is not NATS:
        z = sym()
        return comp(z, pairs(NATS, b), YIELD(mk('tuple', arith('Add', na, fld(z, '0')), fld(z, '1'))))
    if nb is not None and na is None:
        z = sym()
        return comp(z, pairs(NATS, a), YIELD(mk('tuple', fld(z, '1'), arith('Add', nb, fld(z, '0')))))
    def strip(s):
        if s.op == 'comp':
            (x,), (base, body) = unbind(s)
            if body.op == 'yield':
                return base, lambda e: subst(body.a[0], {x: e})
        return s, lambda e: e
    la = list(a.a) if a.op == 'cat' else [a] if a.op == 'yield' else [] if a is NIL else None
    lb = list(b.a) if b.op == 'cat' else [b] if b.op == 'yield' else [] if b is NIL else None
    if la is not None and lb is not None and all(x.op == 'yield' for x in la) and all(x.op == 'yield' for x in lb):
        return cat(*[YIELD(mk('tuple', p.a[0], q.a[0])) for p, q in zip(la, lb)])
    ba, fa = strip(a)
    bb, fb = strip(b)
    if ba.op in ('cat', 'ite', 'nil', 'yield'):
        ba, fa = a, (lambda e: e)
    z = sym()
    base = mk('zip', ba, bb)
    return comp(z, base, YIELD(mk('tuple', fa(fld(z, '0')), fb(fld(z, '1')))))


@model('Iterator::zip', 'iter::zip', 'zip::zip', 'Itertools::zip_eq', 'itertools::zip_eq')
def _(ev, fr, f, a, tys, ety):
    sp = short(nolt(f['p']))
    r = pairs(ev.closed(ev.stream(a[0])), ev.closed(ev.stream(a[1])))
    if 'zip_eq' in sp:
        return pairs_eq(ev, a)
    return r


def pairs_eq(ev, a):
    x, y = ev.closed(ev.stream(a[0])), ev.closed(ev.stream(a[1]))
    c = eq(length(x), length(y))
    return ev.branch(c, lambda: pairs(x, y), lambda: ev.exit('panic', PANIC))


@model('Iterator::unzip', 'Itertools::multiunzip')
def _(ev, fr, f, a, tys, ety):
    s = ev.stream(a[0])
    out = []
    for i in range(2):
        out.append(ev.iterate(s, lambda x: YIELD(fld(x, str(i)))))
    return mk('tuple', *out)


@model('Iterator::partition')
def _(ev, fr, f, a, tys, ety):
    s = ev.stream(a[0])
    both = ev.iterate(s, lambda x: YIELD(mk('tuple', ev.apply(a[1], [x]), x)))
    yes = ev.iterate(both, lambda p: ite(fld(p, '0'), YIELD(fld(p, '1')), NIL))
    no = ev.iterate(both, lambda p: ite(fld(p, '0'), NIL, YIELD(fld(p, '1'))))
    return mk('tuple', yes, no)


@model('Iterator::rev')
def _(ev, fr, f, a, tys, ety):
    return rev(ev.closed(ev.stream(a[0])))


@model('Iterator::skip')
def _(ev, fr, f, a, tys, ety):
    return skip(ev.closed(a[1]), ev.closed(ev.stream(a[0])))


@model('Iterator::take')
def _(ev, fr, f, a, tys, ety):
    return take(ev.closed(a[1]), ev.closed(ev.stream(a[0])))


@model('Iterator::last', 'slice::last', 'VecDeque::back')
def _(ev, fr, f, a, tys, ety):
    return first(rev(ev.closed(ev.stream(a[0]))))


@model('slice::get')
def _(ev, fr, f, a, tys, ety):
    if not (tys and tys[-1] == 'usize' or len(tys) < 2):
        return NotImplemented
    v, i = ev.closed(a[0]), ev.closed(a[1])
    if i.op == 'lit' and isinstance(i.a[1], int) and i.a[1] < 8:
        return first(skip(i, v))
    return ev.branch(lt(i, length(v)), lambda: SOME(idx(v, i)), lambda: NONE)


INDEXED = ('alloc::vec::Vec<', '[', 'alloc::collections::vec_deque::VecDeque<', 'alloc::boxed::Box<[')


@model('Index::index')
def _(ev, fr, f, a, tys, ety):
    if tys and tys[0].startswith(('alloc::collections::btree::map::BTreeMap<', 'std::collections::hash::map::HashMap<', 'std::collections::HashMap<')):
        return ev.opt(maplookup(ev.closed(a[0]), ev.closed(a[1])), lambda x: x, lambda: ev.exit('panic', PANIC))
    if not (tys and tys[0].startswith(INDEXED)):
        return NotImplemented
    return ev.index(ev.closed(a[0]), ev.closed(a[1]))


@model('IndexMut::index_mut')
def _(ev, fr, f, a, tys, ety):
    if not (len(tys) > 1 and tys[0].startswith(INDEXED) and tys[1] == 'usize' and ev.isref(a[0])):
        return NotImplemented
    return ev.refproj(a[0], mk('pr', 'i', ev.closed(a[1])))


@model('vec::from_elem', 'iter::repeat_n', 'repeat_n::repeat_n')
def _(ev, fr, f, a, tys, ety):
    return repeat(ev.closed(a[0]), ev.closed(a[1]))


@model('Iterator::nth')
def _(ev, fr, f, a, tys, ety):
    s = a[0]
    if ev.isref(s):
        v = ev.load(s)
        r = first(skip(ev.closed(a[1]), v))
        ev.store(s, skip(arith('Add', ev.closed(a[1]), lit('int', 1)), v))
        return r
    return first(skip(ev.closed(a[1]), s))


@model('slice::split_first')
def _(ev, fr, f, a, tys, ety):
    v = ev.closed(a[0])
    return ev.opt(first(v), lambda x: SOME(mk('tuple', x, skip(lit('int', 1), v))), lambda: NONE)


@model('Iterator::position', 'Itertools::find_position')
def _(ev, fr, f, a, tys, ety):
    s = pairs(NATS, ev.closed(ev.stream(a[0])))
    fp = short(nolt(f['p'])).endswith('find_position')
    return first(ev.iterate(s, lambda z: ev.branch(ev.apply(a[1], [fld(z, '1')]), lambda: YIELD(z if fp else fld(z, '0')), lambda: NIL)))


@model('Vec::retain', 'VecDeque::retain')
def _(ev, fr, f, a, tys, ety):
    if not ev.isref(a[0]):
        return NotImplemented
    s = ev.load(a[0])
    ev.store(a[0], ev.iterate(s, lambda x: ev.branch(ev.apply(a[1], [x]), lambda: YIELD(x), lambda: NIL)))
    return UNIT


@model('Iterator::sum')
def _(ev, fr, f, a, tys, ety):
    if ety not in PRIM:
        return NotImplemented
    t = ev.newtmp(lit('int', 0))

    def b(x):
        ev.store(t, arith('Add', ev.load(t), x))
        return NIL
    ev.iterate(ev.lstream(a[0]), b)
    return ev.load(t)


@model('Iterator::reduce')
def _(ev, fr, f, a, tys, ety):
    s = ev.closed(ev.stream(a[0]))
    t = ev.newtmp(fld(first(s), '0', 'Some'))

    def b(x):
        ev.store(t, ev.apply(a[1], [ev.load(t), x]))
        return NIL
    return ev.branch(nonempty(s), lambda: (ev.iterate(skip(lit('int', 1), s), b), SOME(ev.load(t)))[1], lambda: NONE)


@model('mem::swap')
def _(ev, fr, f, a, tys, ety):
    if not (ev.isref(a[0]) and ev.isref(a[1])):
        return NotImplemented
    x, y = ev.load(a[0]), ev.load(a[1])
    ev.store(a[0], y)
    ev.store(a[1], x)
    return UNIT


@model('Option::get_or_insert_with')
def _(ev, fr, f, a, tys, ety):
    if not ev.isref(a[0]):
        return NotImplemented
    v = ev.load(a[0])
    ev.branch(isv(v, 'Option', 'Some', VARIANTS['Option']), lambda: UNIT, lambda: (ev.store(a[0], SOME(ev.apply(a[1], []))), UNIT)[1])
    return fld(ev.load(a[0]), '0', 'Some')


@model('Iterator::enumerate')
def _(ev, fr, f, a, tys, ety):
    return pairs(mk('nats'), ev.closed(ev.stream(a[0])))


@model('Itertools::join', 'slice::join', 'Join::join', 'slice::concat_none')
def _(ev, fr, f, a, tys, ety):
    return mk('join', ev.closed(ev.stream(a[0])), ev.closed(a[1]))


@model('Itertools::format')
def _(ev, fr, f, a, tys, ety):
    return mk('join', ev.closed(ev.stream(a[0])), ev.closed(a[1]))


@model('Iterator::inspect')
def _(ev, fr, f, a, tys, ety):
    return a[0]


# ---- vectors and strings
@model('Vec::new', 'String::new', 'Vec::with_capacity', 'String::with_capacity', 'VecDeque::new')
def _(ev, fr, f, a, tys, ety):
    return NIL


@model('HashMap::new', 'HashSet::new', 'BTreeMap::new', 'BTreeSet::new', 'HashMap::with_capacity', 'HashSet::with_capacity')
def _(ev, fr, f, a, tys, ety):
    return emptymap(f['p'])


MAPS = ('HashMap', 'BTreeMap', 'HashSet', 'BTreeSet')


def mapmodel(*names):
    return model(*[c + '::' + n for c in MAPS for n in names])


def has(m, k):
    return isv(maplookup(m, k), 'Option', 'Some', VARIANTS['Option'])


def is_set(f):
    return 'Set' in short(nolt(f['p'])).split('::')[0]


@mapmodel('insert')
def _(ev, fr, f, a, tys, ety):
    if not ev.isref(a[0]):
        return NotImplemented
    m, k = ev.load(a[0]), ev.closed(a[1])
    ev.store(a[0], mapset(m, k, UNIT if is_set(f) else ev.closed(a[2])))
    return NOT(has(m, k)) if is_set(f) else maplookup(m, k)


@mapmodel('contains', 'contains_key')
def _(ev, fr, f, a, tys, ety):
    return has(ev.closed(a[0]), ev.closed(a[1]))


@mapmodel('get')
def _(ev, fr, f, a, tys, ety):
    if is_set(f):
        return NotImplemented
    return maplookup(ev.closed(a[0]), ev.closed(a[1]))


@mapmodel('get_mut')
def _(ev, fr, f, a, tys, ety):
    if not ev.isref(a[0]) or is_set(f):
        return NotImplemented
    k = ev.closed(a[1])
    return ev.branch(has(ev.load(a[0]), k), lambda: SOME(ev.refproj(a[0], mk('pr', 'm', k))), lambda: NONE)


@mapmodel('remove')
def _(ev, fr, f, a, tys, ety):
    if not ev.isref(a[0]):
        return NotImplemented
    m, k = ev.load(a[0]), ev.closed(a[1])
    ev.store(a[0], mk('mapdel', m, k))
    return has(m, k) if is_set(f) else maplookup(m, k)


@mapmodel('entry')
def _(ev, fr, f, a, tys, ety):
    if not ev.isref(a[0]) or is_set(f):
        return NotImplemented
    return mk('entry', a[0], ev.closed(a[1]))


def slot(ev, e):
    return ev.refproj(e.a[0], mk('pr', 'm', e.a[1]))


@model('Entry::or_insert', 'Entry::or_insert_with', 'Entry::or_default', 'Entry::or_insert_with_key')
def _(ev, fr, f, a, tys, ety):
    e = a[0]
    if e.op != 'entry':
        return NotImplemented
    sp = short(nolt(f['p']))

    def absent():
        if sp == 'Entry::or_insert':
            v = a[1]
        elif sp == 'Entry::or_insert_with':
            v = ev.apply(a[1], [])
        elif sp == 'Entry::or_insert_with_key':
            v = ev.apply(a[1], [e.a[1]])
        else:
            v = ev.default_of(ety.lstrip('&').removeprefix('mut '))
        ev.store(e.a[0], mapset(ev.load(e.a[0]), e.a[1], ev.closed(v)))
        return UNIT
    ev.branch(has(ev.load(e.a[0]), e.a[1]), lambda: UNIT, absent)
    return slot(ev, e)


@model('Entry::and_modify')
def _(ev, fr, f, a, tys, ety):
    e = a[0]
    if e.op != 'entry':
        return NotImplemented
    ev.branch(has(ev.load(e.a[0]), e.a[1]), lambda: (ev.apply(a[1], [slot(ev, e)]), UNIT)[1], lambda: UNIT)
    return e


@model('Entry::insert_entry')
def _(ev, fr, f, a, tys, ety):
    return NotImplemented


@model('Vec::push', 'VecDeque::push_back')
def _(ev, fr, f, a, tys, ety):
    if not ev.isref(a[0]):
        return NotImplemented
    ev.store(a[0], cat(ev.load(a[0]), YIELD(ev.closed(a[1]) if a[1].op != 'clo' else a[1])))
    return UNIT


@model('Vec::extend', 'Extend::extend', 'Vec::extend_from_slice', 'Vec::append', 'VecDeque::extend')
def _(ev, fr, f, a, tys, ety):
    if not ev.isref(a[0]):
        return NotImplemented
    sp = short(nolt(f['p']))
    if sp == 'Extend::extend':
        ty = tys[0] if tys else ''
        head = ty.split('<')[0]
        if 'Hash' in head or 'BTree' in head:
            s = ev.closed(ev.stream(a[1]))
            if 'Set' in head:
                s = ev.iterate(s, lambda x: YIELD(mk('tuple', x, UNIT)))
            ev.store(a[0], mapext(ev.load(a[0]), ev.closed(s)))
            return UNIT
        if not (vecty(ty) or ty.startswith('impl ')):
            return NotImplemented
    s = ev.closed(ev.stream(a[1]))
    if sp == 'Vec::append' and ev.isref(a[1]):
        ev.store(a[1], NIL)
    ev.store(a[0], cat(ev.load(a[0]), emb(s)))
    return UNIT


@model('Vec::reserve', 'Vec::shrink_to_fit', 'String::reserve', 'HashMap::reserve')
def _(ev, fr, f, a, tys, ety):
    return UNIT


@model('Vec::clear', 'String::clear')
def _(ev, fr, f, a, tys, ety):
    if not ev.isref(a[0]):
        return NotImplemented
    ev.store(a[0], NIL)
    return UNIT


@model('String::push_str', 'String::push', 'Write::write_str', 'Formatter::write_str', 'Write::write_char', 'Formatter::write_char')
def _(ev, fr, f, a, tys, ety):
    if not ev.isref(a[0]):
        return NotImplemented
    if nolt(f['p']).startswith(('std::io', 'core::io')):
        return NotImplemented
    ev.store(a[0], cat(ev.load(a[0]), ev.disp(a[1])))
    return UNIT if short(nolt(f['p'])).startswith('String::') else OK(UNIT)


@model('alloc::intrinsics_none', 'intrinsics::write_box_via_move', 'write_box_via_move::write_box_via_move')
def _(ev, fr, f, a, tys, ety):
    return a[1]


@model('intrinsics::box_new', 'boxed::box_new')
def _(ev, fr, f, a, tys, ety):
    return a[0]


# ---- formatting
@model('Arguments::from_str', 'Arguments::from_str_nonconst', 'Arguments::new_const')
def _(ev, fr, f, a, tys, ety):
    return ev.disp(a[0])


def fmtarg(kind):
    def g(ev, fr, f, a, tys, ety):
        v = ev.closed(a[0])
        if kind == 'disp':
            return mk('fmtarg', ev.disp(v))
        return mk('fmtarg', mk('fmt', kind, v))
    return g


for n in ('display', 'debug', 'lower_hex', 'upper_hex', 'binary', 'octal', 'lower_exp', 'pointer', 'upper_exp'):
    MODELS['Argument::new_' + n] = fmtarg('disp' if n == 'display' else n)


@model('Arguments::new')
def _(ev, fr, f, a, tys, ety):
    t, args = a[0], a[1]
    if t.op != 'lit' or t.a[0] != 'bytes':
        return NotImplemented
    items = list(args.a) if args.op == 'cat' else [args] if args.op == 'yield' else None
    if items is None:
        return NotImplemented
    items = [i.a[0] for i in items]
    b = bytes.fromhex(t.a[1])
    out = []
    i, nxt = 0, 0
    while i < len(b):
        n = b[i]
        i += 1
        if n == 0:
            break
        if n < 0x80:
            out.append(slit(b[i:i + n].decode('utf8', 'replace')))
            i += n
        elif n == 0x80:
            ln = b[i] | b[i + 1] << 8
            i += 2
            out.append(slit(b[i:i + ln].decode('utf8', 'replace')))
            i += ln
        else:
            opts = []
            if n & 1:
                opts.append(('flags', int.from_bytes(b[i:i + 4], 'little')))
                i += 4
            if n & 2:
                opts.append(('w', int.from_bytes(b[i:i + 2], 'little')))
                i += 2
            if n & 4:
                opts.append(('p', int.from_bytes(b[i:i + 2], 'little')))
                i += 2
            if n & 8:
                nxt = int.from_bytes(b[i:i + 2], 'little')
                i += 2
            x = items[nxt]
            nxt += 1
            x = x.a[0] if x.op == 'fmtarg' else x
            if opts and any(v for _, v in opts):
                x = mk('fmto', x, str(opts))
            out.append(x)
    return cat(*out)


@model('RefCell::borrow_mut', 'RefCell::get_mut')
def _(ev, fr, f, a, tys, ety):
    return ev.cellref(ev.closed(a[0]))


@model('RefCell::borrow')
def _(ev, fr, f, a, tys, ety):
    return ev.load(ev.cellref(ev.closed(a[0])))


@model('Mutex::lock', 'Mutex::get_mut')
def _(ev, fr, f, a, tys, ety):
    return OK(ev.cellref(ev.closed(a[0])))       # locks are taken to be free of poison


@model('DerefMut::deref_mut')
def _(ev, fr, f, a, tys, ety):
    if ev.isref(a[0]):
        v = ev.load(a[0])
        if ev.isref(v):
            return v
    return a[0]


@model('fmt::format')
def _(ev, fr, f, a, tys, ety):
    return a[0]


@model('Formatter::write_fmt', 'Write::write_fmt')
def _(ev, fr, f, a, tys, ety):
    if nolt(f['p']).startswith(('std::io', 'core::io')) or not ev.isref(a[0]):
        return NotImplemented
    ev.store(a[0], cat(ev.load(a[0]), ev.closed(a[1])))
    return OK(UNIT)


@model('Display::fmt')
def _(ev, fr, f, a, tys, ety):
    if not ev.isref(a[1]):
        return NotImplemented
    ev.store(a[1], cat(ev.load(a[1]), ev.disp(a[0])))
    return OK(UNIT)


@model('Range::new', 'RangeInclusive::new')
def _(ev, fr, f, a, tys, ety):
    return mk('adt', 'core::ops::range::RangeInclusive', '', ('end', 'start'), a[1], a[0])


@model('utils::implvec_none')
def _(ev, fr, f, a, tys, ety):
    return a[0]


@model('Monad::pure')
def _(ev, fr, f, a, tys, ety):
    return NotImplemented


def unroll(ev, v, ty):
    """the elements of an array `[T; 1..4]` that some opaque call returned"""
    m = re.match(r'\[.*; ([1-4])\]$', ty)
    if m and not ev.isref(v):
        v = ev.closed(v)
        if v.op in ('call', 'p', 'param', 'fld', 'idx'):
            return cat(*[YIELD(idx(v, lit('int', i))) for i in range(int(m.group(1)))])
    return None


@model('IntoIterator::into_iter', 'iter::into_iter')
def _(ev, fr, f, a, tys, ety):
    if tys and tys[0].startswith('core::option::Option<'):
        return opt_stream(ev.closed(a[0]))
    r = unroll(ev, a[0], tys[0]) if tys else None
    if r is not None:
        return r
    return NotImplemented


@model('Itertools::collect_vec')
def _(ev, fr, f, a, tys, ety):
    s = ev.lstream(a[0])
    return ev.force(s) if s.op == 'lazy' else a[0]


# ---- bitflags
@model('_::bitor', '_::union')
def _(ev, fr, f, a, tys, ety):
    return bor(ev.closed(a[0]), ev.closed(a[1]))


@model('_::bitor_assign', '_::insert')
def _(ev, fr, f, a, tys, ety):
    if not ev.isref(a[0]):
        return NotImplemented
    ev.store(a[0], bor(ev.load(a[0]), ev.closed(a[1])))
    return UNIT


@model('_::sub', '_::difference')
def _(ev, fr, f, a, tys, ety):
    return bdiff(ev.closed(a[0]), ev.closed(a[1]))


@model('_::sub_assign', '_::remove')
def _(ev, fr, f, a, tys, ety):
    if not ev.isref(a[0]):
        return NotImplemented
    ev.store(a[0], bdiff(ev.load(a[0]), ev.closed(a[1])))
    return UNIT


# ---- vectors and queues
@model('Vec::drain', 'VecDeque::drain', 'String::drain')
def _(ev, fr, f, a, tys, ety):
    if not ev.isref(a[0]) or 'RangeFull' not in show(a[1], 2):
        return NotImplemented
    v = ev.load(a[0])
    ev.store(a[0], NIL)
    return v


@model('VecDeque::push_front')
def _(ev, fr, f, a, tys, ety):
    if not ev.isref(a[0]):
        return NotImplemented
    ev.store(a[0], cat(YIELD(ev.closed(a[1]) if a[1].op != 'clo' else a[1]), ev.load(a[0])))
    return UNIT


@model('VecDeque::pop_front')
def _(ev, fr, f, a, tys, ety):
    if not ev.isref(a[0]):
        return NotImplemented
    v = ev.load(a[0])
    if v.op not in ('cat', 'yield', 'nil'):
        return NotImplemented
    ev.store(a[0], skip(lit('int', 1), v))
    return first(v)


@model('Vec::pop', 'VecDeque::pop_back')
def _(ev, fr, f, a, tys, ety):
    if not ev.isref(a[0]):
        return NotImplemented
    v = ev.load(a[0])
    if v.op == 'yield' or v.op == 'cat' and v.a[-1].op == 'yield':
        l = v if v.op == 'yield' else v.a[-1]
        ev.store(a[0], NIL if v.op == 'yield' else cat(*v.a[:-1]))
        return SOME(l.a[0])
    return NotImplemented


@model('Vec::insert')
def _(ev, fr, f, a, tys, ety):
    i = ev.closed(a[1])
    if not ev.isref(a[0]) or not (i.op == 'lit' and i.a[1] == 0):
        return NotImplemented
    ev.store(a[0], cat(YIELD(ev.closed(a[2]) if a[2].op != 'clo' else a[2]), ev.load(a[0])))
    return UNIT


@model('slice::split_last')
def _(ev, fr, f, a, tys, ety):
    v = rev(ev.closed(a[0]))
    return ev.opt(first(v), lambda x: SOME(mk('tuple', x, rev(skip(lit('int', 1), v)))), lambda: NONE)


# ---- the rest of Option and Result
@model('Option::inspect')
def _(ev, fr, f, a, tys, ety):
    return ev.opt(a[0], lambda x: (ev.apply(a[1], [x]), SOME(x))[1], lambda: NONE)


@model('Option::xor')
def _(ev, fr, f, a, tys, ety):
    return ev.opt(a[0], lambda x: ev.opt(a[1], lambda y: NONE, lambda: SOME(x)), lambda: a[1])


@model('Option::get_or_insert')
def _(ev, fr, f, a, tys, ety):
    if not ev.isref(a[0]):
        return NotImplemented
    v = ev.opt(ev.load(a[0]), lambda x: x, lambda: a[1])
    ev.store(a[0], SOME(v))
    return NotImplemented if ety.startswith('&mut') and False else v


@model('Result::inspect')
def _(ev, fr, f, a, tys, ety):
    return ev.res(a[0], lambda x: (ev.apply(a[1], [x]), OK(x))[1], lambda x: ERRV(ev.errpay(x)))


@model('Result::inspect_err')
def _(ev, fr, f, a, tys, ety):
    return ev.res(a[0], lambda x: OK(x), lambda x: (ev.apply(a[1], [x]), ERRV(ev.errpay(x)))[1])


@model('Result::map_or')
def _(ev, fr, f, a, tys, ety):
    return ev.res(a[0], lambda x: ev.apply(a[2], [x]), lambda x: a[1])


@model('Result::map_or_else')
def _(ev, fr, f, a, tys, ety):
    return ev.res(a[0], lambda x: ev.apply(a[2], [x]), lambda x: ev.apply(a[1], [x]))


@model('Result::is_err_and')
def _(ev, fr, f, a, tys, ety):
    return ev.res(a[0], lambda x: FALSE, lambda x: ev.apply(a[1], [x]))


@model('Result::iter', 'Result::into_iter')
def _(ev, fr, f, a, tys, ety):
    return ev.res(a[0], lambda x: YIELD(x), lambda x: NIL)


@model('Result::flatten')
def _(ev, fr, f, a, tys, ety):
    return ev.res(a[0], lambda x: x, lambda x: ERRV(ev.errpay(x)))


# ---- iterators




@model('Itertools::filter_ok')
def _(ev, fr, f, a, tys, ety):
    s = ev.stream(a[0])
    return ev.iterate(s, lambda x: ev.res(x, lambda y: ev.branch(ev.apply(a[1], [y]), lambda: YIELD(OK(y)), lambda: NIL), lambda e: YIELD(ERRV(ev.errpay(e)))))


@model('Itertools::map_ok')
def _(ev, fr, f, a, tys, ety):
    s = ev.stream(a[0])
    return ev.iterate(s, lambda x: YIELD(ev.res(x, lambda y: OK(ev.apply(a[1], [y])), lambda e: ERRV(ev.errpay(e)))))


# ---- Ordering
ORD = 'core::cmp::Ordering'


def isord(x, v):
    return isv(x, ORD, v, VARIANTS[ORD])


@model('Ordering::then')
def _(ev, fr, f, a, tys, ety):
    return ev.branch(isord(ev.closed(a[0]), 'Equal'), lambda: a[1], lambda: a[0])


@model('Ordering::then_with')
def _(ev, fr, f, a, tys, ety):
    return ev.branch(isord(ev.closed(a[0]), 'Equal'), lambda: ev.apply(a[1], []), lambda: a[0])


@model('Ordering::is_eq', 'Ordering::is_ne', 'Ordering::is_lt', 'Ordering::is_gt', 'Ordering::is_le', 'Ordering::is_ge')
def _(ev, fr, f, a, tys, ety):
    x = ev.closed(a[0])
    k = short(nolt(f['p'])).split('_')[-1]
    r = isord(x, {'eq': 'Equal', 'ne': 'Equal', 'lt': 'Less', 'ge': 'Less', 'gt': 'Greater', 'le': 'Greater'}[k])
    return r if k in ('eq', 'lt', 'gt') else NOT(r)


@model('Ordering::reverse')
def _(ev, fr, f, a, tys, ety):
    x = ev.closed(a[0])
    if x.op == 'call' and short(str(x.a[0])) in ('Ord::cmp',) and len(x.a) == 3:
        return mk('call', x.a[0], x.a[2], x.a[1])
    o = lambda v: adt(ORD, v, [])
    return ite(isord(x, 'Equal'), o('Equal'), ite(isord(x, 'Less'), o('Greater'), o('Less')))


@model('process::exit')
def m_exit(ev, fr, f, a, tys, ety):
    return ev.exit('halt', mk('call', 'process::exit', ev.closed(a[0])))


@model('HashMap::keys', 'BTreeMap::keys', 'HashMap::into_keys', 'BTreeMap::into_keys')
def _(ev, fr, f, a, tys, ety):
    return ev.iterate(ev.stream(a[0]), lambda x: YIELD(fld(x, '0')))


@model('HashMap::values', 'BTreeMap::values', 'HashMap::into_values', 'BTreeMap::into_values')
def _(ev, fr, f, a, tys, ety):
    return ev.iterate(ev.stream(a[0]), lambda x: YIELD(fld(x, '1')))


@model('Itertools::tuple_windows')
def _(ev, fr, f, a, tys, ety):
    if not re.search(r'TupleWindows<.*, \([^,()]*, [^,()]*\)>', str(ety)):
        return NotImplemented
    s = ev.closed(ev.stream(a[0]))
    return pairs(s, skip(lit('int', 1), s))


@model('slice::windows')
def _(ev, fr, f, a, tys, ety):
    n = ev.closed(a[1])
    if n.op != 'lit' or n.a[1] != 2:
        return NotImplemented
    s = ev.closed(ev.stream(a[0]))
    return ev.iterate(pairs(s, skip(lit('int', 1), s)), lambda x: YIELD(cat(YIELD(fld(x, '0')), YIELD(fld(x, '1')))))
