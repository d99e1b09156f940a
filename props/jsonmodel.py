"""Model of the standard library's json.dumps / json.loads (default arguments) for documents with symbolic parts.

json.dumps and json.loads are C code outside the library under test, so this stands in for them during symbolic
execution; replays use the real ones, and tools/../symx/selftest.py compares the two."""
import json


def fail(why):
    raise json.JSONDecodeError(why, 'doc', 0)


# ------------------------------------------------------------------------------------------------- writing
SHORT = {8: '\\b', 9: '\\t', 10: '\\n', 12: '\\f', 13: '\\r', 34: '\\"', 92: '\\\\'}


def hex4(v):
    return '\\u' + ''.join([HEX(v >> s & 15) for s in (12, 8, 4, 0)])


def HEX(d):
    return chr(d + 48 + (d > 9) * 39)


def quoted(s):
    out = '"'
    for c in s:
        o = ord(c)
        for k in SHORT:
            if o == k:
                out += SHORT[k]
                break
        else:
            if o < 32:
                out += hex4(o)
            elif o < 127:
                out += c
            elif o < 65536:
                out += hex4(o)
            else:
                out += hex4(0xd800 + ((o - 65536) >> 10)) + hex4(0xdc00 + ((o - 65536) & 1023))
    return out + '"'


def decimal(v):
    sign = ''
    if v < 0:
        sign, v = '-', -v
    n = 1
    while v >= 10 ** n:
        n += 1
    return sign + ''.join([chr(v // 10 ** k % 10 + 48) for k in range(n - 1, -1, -1)])


def dumps(v):
    if v is None:
        return 'null'
    if isinstance(v, bool):
        return 'true' if v else 'false'
    if isinstance(v, int):
        return decimal(v)
    if isinstance(v, float):
        return json.dumps(v)
    if isinstance(v, str):
        return quoted(v)
    if isinstance(v, (list, tuple)):
        return '[' + ', '.join([dumps(x) for x in v]) + ']'
    if isinstance(v, dict):
        return '{' + ', '.join([quoted(k) + ': ' + dumps(v[k]) for k in v]) + '}'
    raise TypeError('Object of type %s is not JSON serializable' % type(v).__name__)


# ------------------------------------------------------------------------------------------------- reading
class Parser(object):
    def __init__(self, s):
        self.s, self.n, self.i = s, len(s), 0

    def at(self, k=0):
        """character code at the position, -1 at the end"""
        return ord(self.s[self.i + k]) if self.i + k < self.n else -1

    def space(self):
        while True:
            c = self.at()
            if (c == 32) | (c == 10) | (c == 13) | (c == 9):
                self.i += 1
            else:
                return

    def word(self, w):
        if self.i + len(w) <= self.n and self.s[self.i:self.i + len(w)] == w:
            self.i += len(w)
            return True
        return False

    def document(self):
        self.space()
        v = self.value()
        self.space()
        if self.i < self.n:
            fail('Extra data')
        return v

    def value(self):
        c = self.at()
        if c == 34:
            self.i += 1
            return self.string()
        if c == 123:
            self.i += 1
            return self.object()
        if c == 91:
            self.i += 1
            return self.array()
        for w, v in (('null', None), ('true', True), ('false', False), ('NaN', float('nan')), ('Infinity', float('inf')),
                     ('-Infinity', float('-inf'))):
            if c == ord(w[0]) and self.word(w):
                return v
        return self.number()

    def digit(self):
        c = self.at()
        return (c >= 48) & (c <= 57)

    def number(self):
        start, neg, v = self.i, False, 0
        if self.at() == 45:
            neg = True
            self.i += 1
        if self.at() == 48:
            self.i += 1
        elif self.digit():
            while self.digit():
                v = v * 10 + (self.at() - 48)
                self.i += 1
        else:
            fail('Expecting value')
        real = False
        if self.at() == 46:
            self.i += 1
            if self.digit():
                real = True
                while self.digit():
                    self.i += 1
            else:
                self.i -= 1
        c = self.at()
        if c == 69 or c == 101:
            back = self.i
            self.i += 1
            if self.at() == 43 or self.at() == 45:
                self.i += 1
            if self.digit():
                real = True
                while self.digit():
                    self.i += 1
            else:
                self.i = back
        if real:
            return float(self.s[start:self.i])
        return -v if neg else v

    def unit(self):
        v = 0
        for _ in range(4):
            c = self.at()
            if not (((c >= 48) & (c <= 57)) | ((c >= 65) & (c <= 70)) | ((c >= 97) & (c <= 102))):
                fail('Invalid \\uXXXX escape')
            d = c - 48 - (c >= 65) * 7 - (c >= 97) * 32
            v = v * 16 + d
            self.i += 1
        return v

    def string(self):
        out = ''
        while True:
            c = self.at()
            if c == -1:
                fail('Unterminated string')
            self.i += 1
            if c == 34:
                return out
            if c < 32:
                fail('Invalid control character')
            if c != 92:
                out += chr(c)
                continue
            c = self.at()
            self.i += 1
            if c == 117:
                u = self.unit()
                if u >= 0xd800 and u <= 0xdbff and self.at() == 92 and self.at(1) == 117:
                    back = self.i
                    self.i += 2
                    low = self.unit()
                    if low >= 0xdc00 and low <= 0xdfff:
                        u = 65536 + ((u - 0xd800) << 10 | (low - 0xdc00))
                    else:
                        self.i = back
                out += chr(u)
                continue
            for k, v in ((34, 34), (92, 92), (47, 47), (98, 8), (102, 12), (110, 10), (114, 13), (116, 9)):
                if c == k:
                    out += chr(v)
                    break
            else:
                fail('Invalid \\escape')

    def array(self):
        out = []
        self.space()
        if self.at() == 93:
            self.i += 1
            return out
        while True:
            out.append(self.value())
            self.space()
            c = self.at()
            self.i += 1
            if c == 93:
                return out
            if c != 44:
                fail('Expecting , delimiter')
            self.space()

    def object(self):
        out = {}
        self.space()
        if self.at() == 125:
            self.i += 1
            return out
        while True:
            if self.at() != 34:
                fail('Expecting property name')
            self.i += 1
            k = self.string()
            self.space()
            if self.at() != 58:
                fail('Expecting : delimiter')
            self.i += 1
            self.space()
            out[k] = self.value()
            self.space()
            c = self.at()
            self.i += 1
            if c == 125:
                return out
            if c != 44:
                fail('Expecting , delimiter')
            self.space()


def loads(s):
    return Parser(s).document()


class Model(object):
    """what symx's stand-ins for json.dumps and json.loads call"""

    def dumps(self, v, a, k):
        return None if a or k or isinstance(v, float) else dumps(v)

    def loads(self, s, a, k):
        return loads(s)
