"""Contract assumed on argparse: the parser of the standard library is run on the options recorded by the code, the symbolic words of
the command line (file names, numbers) being carried through by placeholders."""
import argparse
import builtins
from .core import Unsupported, PyRaise, is_term, is_num, simp
from .values import SList, SDict, is_stext, seq_of, ctx
from . import models as M
from .models import Model, simple


class NumWord:
    """a word of the command line that denotes a number"""

    def __init__(self, value):
        self.value = value


class Namespace:
    def __init__(self, d):
        self.d = d

    def sv_getattr(self, it, nm):
        if nm in self.d:
            return self.d[nm]
        if nm == '__dict__':
            return SDict(dict(self.d))
        raise PyRaise(AttributeError(f"'Namespace' object has no attribute '{nm}'"))


class Parser:
    def __init__(self, kw):
        self.kw, self.options = kw, []

    def sv_type(self):
        return argparse.ArgumentParser

    def sv_getattr(self, it, nm):
        if nm == 'add_argument':
            return Model(lambda *a, **k: self.options.append((a, k)), nm)
        if nm == 'parse_args':
            return Model(lambda argv=None: self.parse(it, argv), nm)
        if nm == 'set_defaults':
            return Model(lambda **k: self.options.append((None, k)), nm)
        raise Unsupported(f'ArgumentParser.{nm}')

    def parse(self, it, argv):
        if argv is None:
            raise Unsupported('command line of the process')
        words, holes = [], {}
        for w in seq_of(argv).lst:
            if isinstance(w, str):
                words.append(w)
            else:
                h = f'@{len(holes)}@'
                holes[h] = w
                words.append(h)
        out = {}
        p = argparse.ArgumentParser(**{k: it.to_native(v) for k, v in self.kw.items()}, exit_on_error=True)

        def conv(f):
            def g(s):
                if s in holes:
                    v = holes[s]
                    if f is None or f is str:
                        if isinstance(v, NumWord):
                            raise Unsupported('text of a number')
                        return s
                    if f in (int, float) and isinstance(v, NumWord):
                        if f is int and is_term(v.value) and not v.value.is_int():
                            raise ValueError('not an integer')
                        return Hole(s, f)
                    raise Unsupported('type of an option')
                return f(s) if f is not None else s
            return g
        for a, k in self.options:
            k = {n: v if n == 'type' else it.to_native(v) for n, v in k.items()}
            if a is None:
                p.set_defaults(**k)
                continue
            if 'action' not in k:
                k['type'] = conv(k.get('type'))
            try:
                p.add_argument(*a, **k)
            except (ValueError, TypeError, argparse.ArgumentError) as e:
                raise PyRaise(e)
        err = []

        def error(msg):
            err.append(msg)
            raise SystemExit(2)
        p.error = error
        try:
            ns = p.parse_args(words)
        except SystemExit as e:
            raise PyRaise(RuntimeError(f'exit of the command: {err}'))

        def value(v):
            if isinstance(v, Hole):
                x = holes[v.s].value
                return M.REG[float](it, [x], {}) if v.f is float else x
            if isinstance(v, str) and v in holes:
                return holes[v]
            if isinstance(v, list):
                return SList([value(x) for x in v])
            return v
        ctx().assumptions.add('argparse: run natively on the recorded options; symbolic file names and numbers of the command line are ordinary words')
        return Namespace({k: value(v) for k, v in vars(ns).items()})


class Hole:
    def __init__(self, s, f):
        self.s, self.f = s, f


@simple(argparse.ArgumentParser)
def m_parser(it, **kw):
    return Parser(kw)


@simple(builtins.vars)
def m_vars(it, o):
    if isinstance(o, Namespace):
        return SDict(dict(o.d))
    raise Unsupported('vars')
