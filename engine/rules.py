"""Property-specific rules over the current program."""
import json


class Missing(Exception):
    pass


class Report:
    def __init__(self, C, R, pair):
        self.C, self.R, self.pair = C, R, pair
        self.n = self.obl = 0
        self.samples = []
        self.violations = []

    def bad(self, key, where, msg):
        self.violations.append((key, where, msg))


RULES = {}


def rule(name):
    def d(f):
        RULES[name] = f
        return f
    return d


@rule('located')
def located(rep):
    """absolute offsets of a location must come with the whole input they index, not with the located substring"""
    for kind, offset in (('span::Span', "Span::<'i>::start"), ('position::Position', "Position::<'i>::pos")):
        p = '<cryptovampire::parser::location::PestLocation as core::convert::From<pest::%s>>::from' % kind
        b = rep.C.bodies.get(p)
        if b is None:
            continue
        rep.n += 1
        rep.obl += 1
        rep.samples.append(p)
        t = json.dumps(b)
        if "Span::<'i>::as_str" in t and offset in t:
            rep.bad(kind.split('::')[1], p, 'stores offsets into the whole input next to the located substring only (%s:%s)' % (b['file'], b['ln']))
