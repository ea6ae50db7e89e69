"""Contracts assumed on text files: a file is a sequence of lines, a line is a sequence of words (split at blanks).
A word that writes a number is read back as that number by int() and float() (repr of a double is read back exactly)."""
from .core import Unsupported, PyRaise, lift
from .values import SSeq, SList, subst, ite, to_real, ctx
from .models import Model

NOTE = 'text files: lines and words split at blanks; int() and float() read back the number a word was written from'


class Word:
    """the text of a number"""

    def __init__(self, value, real=False):
        self.value, self.real = value, real
        ctx().assumptions.add(NOTE)

    def sv_type(self):
        return str

    def sv_int(self, it):
        if self.real:
            raise Unsupported('int() of the text of a real')
        return self.value

    def sv_float(self, it):
        return self.value if self.real else to_real(lift(self.value))

    def sv_subst(self, pairs):
        return Word(subst(self.value, pairs), self.real)

    def sv_ite(self, c, o):
        if isinstance(o, Word) and o.real == self.real:
            return Word(ite(c, self.value, o.value), self.real)
        raise Unsupported('choice between two texts')

    def __eq__(self, o):
        if self is o:
            return True
        if isinstance(o, str):
            try:
                float(o)
            except ValueError:
                return False        # not the text of a number
        raise Unsupported('comparison of the text of a number')

    __hash__ = None


class Line:
    def __init__(self, words):
        self.words = words

    def sv_subst(self, pairs):
        return Line([subst(w, pairs) for w in self.words])

    def sv_getattr(self, it, name):
        if name == 'split':
            return Model(lambda: SList(list(self.words)))
        if name in ('strip', 'rstrip', 'lstrip'):
            return Model(lambda *a: self)
        raise Unsupported(f'{name} of a line of text')


class Text:
    """content of a file: sequence of lines"""

    def __init__(self, lines):
        self.lines = lines


class TextFile:
    def __init__(self, text):
        self.text, self.used, self.closed = text, False, False

    def sv_enter(self, it):
        return self

    def sv_exit(self, it):
        self.closed = True

    def sv_iter(self, it):
        if self.closed:
            raise PyRaise(ValueError('I/O operation on closed file.'))
        if self.used:
            return SSeq(lst=[])
        self.used = True
        return self.text.lines

    def sv_getattr(self, it, name):
        if name == 'readlines':
            return Model(lambda: SList(self.sv_iter(it)))
        if name == 'close':
            return Model(lambda: self.sv_exit(it))
        raise Unsupported(f'{name} of a text file')
