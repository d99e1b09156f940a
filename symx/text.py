"""Text with holes: what formatting symbolic values gives, in text mode (S.text_mode()).

Formatting happens in the interpreter's C code.  In text mode the textual form of a symbolic value is a hole: an
uninterpreted rendering of that value by a named format.  Two texts are equal when their characters are the same and their
holes have the same format and (for the solver) equal values; formatting itself is assumed to be a function of the value."""
import re
import string
from . import core
from .core import SymInt, SymBool, SymNum, SymFloat, b_and, b_or, conc
from .seq import SymBytes, SymByteArray, SymStr, SymMemoryView, mk_str

FUNC = type(lambda: 0)


def on():
    return core.E is not None and core.E.text and not core.E.peek


class Hole(object):
    __slots__ = ('fmt', 'v')

    def __init__(self, fmt, v):
        self.fmt, self.v = fmt, v

    def concrete(self):
        return self.render(conc(self.v))

    def render(self, v):
        if self.fmt == 'd':
            return '%d' % v
        if self.fmt == 'r':
            return repr(v)
        if self.fmt[0] == '%':
            return self.fmt % v
        return format(v, self.fmt[1:])


class SymText(object):
    """items: characters' code points and holes"""
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    @property
    def __class__(self):
        return str

    def _sx_concrete(self):
        return ''.join(x.concrete() if type(x) is Hole else chr(conc(x)) for x in self.e)

    def _other(self, o):
        if type(o) in (SymText, SymStr):
            return o.e
        return [ord(c) for c in o] if isinstance(o, str) else None

    def __add__(self, o):
        e = self._other(o)
        return NotImplemented if e is None else SymText(self.e + e)

    def __radd__(self, o):
        e = self._other(o)
        return NotImplemented if e is None else SymText(e + self.e)

    def __mod__(self, args):
        return mod(self, args)

    def join(self, parts):
        return join(self, parts)

    def __eq__(self, o):
        e = self._other(o)
        if e is None:
            return False
        return match(self.e, e) if len(self.e) == len(e) else self._sx_concrete() == conc(o)

    def __ne__(self, o):
        return core.b_not(self == o)

    def __hash__(self):
        return hash(self._sx_concrete())

    def __contains__(self, o):
        e = self._other(o)
        n = len(e)
        return bool(b_or(*[match(self.e[i:i + n], e) for i in range(len(self.e) - n + 1)]))

    def __len__(self):
        return len(self._sx_concrete())

    def __bool__(self):
        return bool(self.e)

    def __iter__(self):
        return iter(self._sx_concrete())

    def __getitem__(self, i):
        return self._sx_concrete()[i]

    def __str__(self):
        return self._sx_concrete()

    def __repr__(self):
        return repr(self._sx_concrete())

    def __format__(self, spec):
        return format(self._sx_concrete(), spec)

    def __getattr__(self, name):
        if name.startswith('_') or not hasattr(str, name):
            raise AttributeError("'str' object has no attribute '%s'" % name)
        return getattr(self._sx_concrete(), name)


core.SYM_TYPES.add(SymText)


def match(a, b):
    from .api import deep_eq
    if len(a) != len(b):
        return False
    out = []
    for x, y in zip(a, b):
        if type(x) is Hole or type(y) is Hole:
            if type(x) is not type(y) or x.fmt != y.fmt:
                return False
            out.append(deep_eq(x.v, y.v))
        elif type(x) is int and type(y) is int:
            if x != y:
                return False
        else:
            out.append(x == y)
    return b_and(*out)


def make(parts):
    e = []
    for p in parts:
        e.extend(p.e if type(p) in (SymText, SymStr) else [ord(c) for c in p])
    if any(type(x) is Hole for x in e):
        return SymText(e)
    return mk_str(e)


def hole(fmt, v):
    return SymText([Hole(fmt, v)])


def join(sep, parts):
    out = []
    for i, p in enumerate(parts):
        if not isinstance(p, str):
            raise TypeError('sequence item %d: expected str instance, %s found' % (i, p.__class__.__name__))
        if i:
            out.append(sep)
        out.append(p)
    return make(out)


def to_repr(x):
    t = type(x)
    if t is SymInt:
        return hole('d', x)
    if t in core.SYM_TYPES:
        return hole('r', x)
    if t in (int, float, bool, str, bytes, type(None)):
        return repr(x)
    f = type(x).__repr__
    if type(f) is FUNC:
        r = f(x)
        if not isinstance(r, str):
            raise TypeError('__repr__ returned non-string (type %s)' % r.__class__.__name__)
        return r
    if f is list.__repr__:
        return make(['[', join(', ', [to_repr(y) for y in list.__iter__(x)]), ']'])
    if f is tuple.__repr__ and len(x) != 1:
        return make(['(', join(', ', [to_repr(y) for y in x]), ')'])
    if f is dict.__repr__ and x:
        return make(['{', join(', ', [make([to_repr(k), ': ', to_repr(v)]) for k, v in x.items()]), '}'])
    return repr(x)


def to_str(x):
    t = type(x)
    if t in (SymStr, SymText, str):
        return x
    if t in core.SYM_TYPES:
        return to_repr(x)
    f = t.__str__
    if type(f) is FUNC:
        r = f(x)
        if not isinstance(r, str):
            raise TypeError('__str__ returned non-string (type %s)' % r.__class__.__name__)
        return r
    if f is object.__str__:
        return to_repr(x)
    return str(x)


def to_format(x, spec):
    if type(spec) is not str:
        spec = conc(spec)
    if type(x) in core.SYM_TYPES:
        if spec == '':
            return to_str(x)
        if type(x) is SymInt and spec == 'd':
            return hole('d', x)
        if type(x) in (SymInt, SymBool, SymNum, SymFloat) and re.match(r'^0?\d*[dxXob]$', spec):
            if type(x) in (SymNum, SymFloat):
                raise ValueError("Unknown format code '%s' for object of type 'float'" % spec[-1])
            return hole(':' + spec, x)
        if type(x) in (SymNum, SymFloat, SymInt) and re.match(r'^\.?\d*[fge]$', spec):
            return hole(':' + spec, x)
        return format(conc(x), spec)
    if spec == '' and type(type(x).__format__) is not FUNC:
        return to_str(x)
    return format(x, spec)


CONV = re.compile(r'%(?:\((\w+)\))?([-#0 +]*)(\*|\d+)?(\.(?:\*|\d+))?[hlL]?(.)', re.S)


def mod(s, b):
    s = conc(s)
    mapping = isinstance(b, dict)
    args = list(b) if type(b) is tuple else [b]
    out, pos, n = [], 0, 0
    for m in CONV.finditer(s):
        out.append(s[pos:m.start()])
        pos = m.end()
        key, flags, width, prec, c = m.groups()
        if c == '%':
            out.append('%')
            continue
        if width == '*' or prec == '.*':
            return s % conc_all(b)
        if key is not None:
            x = b[key]
        else:
            if n >= len(args):
                raise TypeError('not enough arguments for format string')
            x, n = args[n], n + 1
        plain = not flags and not width and not prec
        if c in 'sr' and plain:
            out.append(to_str(x) if c == 's' else to_repr(x))
        elif type(x) not in core.SYM_TYPES:
            out.append(m.group(0).replace('(%s)' % key, '') % (x,))
        elif c in 'diuxXo':
            if type(x) in (SymStr, SymText, SymBytes, SymByteArray, SymMemoryView):
                raise TypeError("%%%s format: a number is required, not %s" % (c, x.__class__.__name__))
            if type(x) is SymBool:
                x = x.as_int()
            if type(x) in (SymNum, SymFloat):
                if c in 'xXo':
                    raise TypeError("%%%s format: an integer is required, not float" % c)
                x = core_int(x)
                if type(x) is int:
                    out.append('%d' % x)
                    continue
            out.append(hole('d', x) if plain and c in 'diu' else hole(m.group(0).replace('(%s)' % key, ''), x))
        elif c in 'eEfFgG':
            if type(x) in (SymStr, SymText, SymBytes, SymByteArray, SymMemoryView):
                raise TypeError('must be real number, not %s' % x.__class__.__name__)
            out.append(hole(m.group(0).replace('(%s)' % key, ''), x))
        else:
            out.append(m.group(0).replace('(%s)' % key, '') % (conc(x),))
    out.append(s[pos:])
    if n < len(args) and not mapping:
        raise TypeError('not all arguments converted during string formatting')
    return make(out)


def core_int(x):
    from .hooks import h_int
    return h_int(x)


def conc_all(b):
    from .hooks import concretize_deep
    return concretize_deep(b)


def fmt(s, a, k):
    s = conc(s)
    out, n = [], 0
    for lit, name, spec, conv in string.Formatter().parse(s):
        out.append(lit)
        if name is None:
            continue
        m = re.match(r'^(\w*)(.*)$', name, re.S)
        first, rest = m.groups()
        if first == '':
            x, n = a[n], n + 1
        elif first.isdigit():
            x = a[int(first)]
        else:
            x = k[first]
        for attr, item in re.findall(r'\.(\w+)|\[([^\]]+)\]', rest):
            x = getattr(x, attr) if attr else x[int(item) if item.isdigit() else item]
        if '{' in spec:
            spec = fmt(spec, a, k)
        if conv == 'r':
            x = to_repr(x)
        elif conv == 's':
            x = to_str(x)
        elif conv == 'a':
            x = ascii(conc(x))
        out.append(to_format(x, spec))
    return make(out)


def fstr(parts):
    out = []
    for p in parts:
        if type(p) is tuple:
            v, conv, spec = p
            v = to_repr(v) if conv == 'r' else to_str(v) if conv == 's' else ascii(conc(v)) if conv == 'a' else v
            out.append(to_format(v, spec))
        else:
            out.append(p)
    return make(out)
