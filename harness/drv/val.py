"""drives real identifiers, vectors, rotations and the packed fraction functions"""
import math
import struct
import common
from fractions import Fraction
from pyogp.lib.base.datatypes import UUID, Vector3, Quaternion
from pyogp.lib.base.helpers import Helpers

CLS = {'U': UUID, 'V': Vector3, 'Q': Quaternion}


def s(cs):
    return ''.join([chr(c) for c in cs])


def num(x):
    return math.ldexp(float(x['m']), x['e'])


def single(f):
    return struct.unpack('<f', struct.pack('<f', f))[0]


def me(f):
    """m odd or 0, with f = m * 2^e"""
    try:
        # to the precision of the bytes
        f = struct.unpack('<f', struct.pack('<f', f))[0]
        if f != f or f in (1e400, -1e400):
            return {'m': 7, 'e': 999}
        a, e = math.frexp(f)
        m = int(a * 2 ** 53)
        e -= 53
        if m == 0:
            return {'m': 0, 'e': 0}
        while m % 2 == 0:
            m //= 2
            e += 1
        if abs(m) >= 2 ** 30:
            return {'m': 7, 'e': 998}
        return {'m': m, 'e': e}
    except Exception:
        return {'m': 7, 'e': 997}

def lack(fs):
    """the square of the length, less one, in millionths"""
    q = sum([Fraction.from_float(float(f)) ** 2 for f in fs if abs(f) < 1000], Fraction(-1))
    if [f for f in fs if not abs(f) < 1000]:
        return 10 ** 9
    return min(10 ** 9, int(math.floor(q * 10 ** 6 + Fraction(1, 2))))


class World(object):

    def __init__(self):
        self.o = []
        self.k = []
        self.ev = []

    def build(self, op, k):
        how = op['how']
        if how == 'zero':
            return CLS[k]()
        if how == 'text':
            t = s(op['chars'])
            return op.get('uni') and UUID(unicode(t)) or UUID(string=t)
        if how == 'bytes':
            b, f = s(op['buf']), op['off']
            if k == 'Q' and (op['len'] == 3 or op.get('kw')):
                return Quaternion(b, f, op['len'])
            if k == 'U':
                return UUID(bytes=b, offset=f)
            return f and CLS[k](b, f) or CLS[k](b, offset=f)
        if how == 'num':
            v = [num(x) for x in op['nums']]
            if op.get('wide'):
                # more digits than the bytes hold
                return CLS[k](**dict(zip('XYZW', [x * (1 + 2.0 ** -41) for x in v])))
            if op.get('ints'):
                v = [x == int(x) and int(x) or x for x in v]
            if op.get('parse') and k == 'V':
                return Vector3.parse((op['parse'] == 1 and '<%r, %r, %r>' or ' %r,%r , %r ') % tuple([num(x) for x in op['nums']]))
            return CLS[k](**dict(zip('XYZW', v)))
        if how == 'copy':
            x = self.o[op['of'] - 1]
            if op.get('parse') == 1 and k == 'U':
                return UUID(str(x))
            if op.get('parse') == 1 and k == 'V':
                return Vector3.parse(repr(x))
            if op.get('parse') == 2:
                return CLS[k](bytes=x.get_bytes())
            return x.copy()
        if how == 'xor':
            return self.o[op['of'] - 1] ^ self.o[op['with'] - 1]

    def change(self, op):
        x = self.o[op['o'] - 1]
        k = self.k[op['o'] - 1]
        if op['how'] == 'bytes':
            if k == 'Q' and op['len'] == 3:
                x.unpack_from_bytes(s(op['buf']), op['off'], 3)
            else:
                x.unpack_from_bytes(s(op['buf']), op['off'])
        else:
            for n, v in zip('XYZW', op['nums']):
                setattr(x, n, num(v))

    def step(self, op):
        e = dict([(f, op[f]) for f in op if f not in ('uni', 'kw', 'ints', 'wide', 'parse', 'inst')])
        e['err'] = ''
        if op['op'] == 'mk' and op['how'] in ('copy', 'xor'):
            e['k'] = self.k[op['of'] - 1]
        self.ev.append(e)
        try:
            if op['op'] == 'mk':
                x = self.build(op, e['k'])
                if not isinstance(x, CLS[e['k']]) or [y for y in self.o if y is x]:
                    raise TypeError(e['k'])
                self.o.append(x)
                self.k.append(e['k'])
                if op['how'] == 'copy' and not op.get('parse'):
                    y = self.o[op['of'] - 1]
                    self.ev.append({'op': 'copied', 'same': x.data() == y.data() and type(x) is type(y)})
            elif op['op'] == 'set':
                e['k'] = self.k[op['o'] - 1]
                self.change(op)
            elif op['op'] == 'rnd':
                self.o[op['o'] - 1].random()
            elif op['op'] == 'conv':
                self.conv(op, e)
                return True
            elif op['op'] == 'frac':
                self.frac(op, e)
                return True
        except Exception, x:
            e['err'] = common.errname(x)
            return op['op'] == 'conv'
        self.look()
        return True

    def frac(self, op, e):
        lo, hi = op['lo'] / 8.0, op['hi'] / 8.0
        f = op['w'] == 2 and Helpers.packed_u16_to_float or Helpers.packed_u8_to_float
        v = f(s(op['buf']), op['off'], lo, hi)
        e['zero'] = v == 0
        mx = op['w'] == 2 and 65535 or 255
        p = (Fraction.from_float(float(v)) - Fraction(op['lo'], 8)) * mx * 8000 / (op['hi'] - op['lo'])
        e['p'] = int(math.floor(p + Fraction(1, 2)))
        if abs(e['p']) > 10 ** 9:
            e['p'] = 10 ** 9

    def conv(self, op, e):
        e['out'] = []
        w = op['what']
        if w == 'int':
            n = 0
            for b in reversed(op['in']):
                n = n * 256 + b
            r = Helpers.int_to_bytes(op['neg'] and -n or n)
        else:
            f = {'hex': Helpers.bytes_to_hex, 'unhex': Helpers.hex_to_ascii, 'base64': Helpers.bytes_to_base64, 'uu': Helpers.bytes_to_ascii}[w]
            r = (op.get('inst') and getattr(Helpers(), f.__name__) or f)(s(op['in']))
        e['out'] = [ord(c) for c in r]

    def look(self):
        for i in range(len(self.o)):
            x = self.o[i]
            e = {'op': 'obs', 'o': i + 1, 'b': [], 'text': [], 'comps': [], 'n3': 0, 'n4': 0}
            self.ev.append(e)
            try:
                b = x.get_bytes()
                e['b'] = [ord(c) for c in b]
                if self.k[i] == 'U':
                    hash(x)
                    e['text'] = [ord(c) for c in str(x)]
                    if str(x()) != str(x) or str(x.data()) != str(x):
                        e['text'] = []
                else:
                    e['comps'] = [me(f) for f in x.data()]
                    if self.k[i] == 'Q':
                        e['n3'], e['n4'] = lack(x.data()[:3]), lack(x.data())
                    if x.data() != x() or tuple([getattr(x, n) for n in 'XYZW'[:len(x())]]) != x():
                        e['comps'] = []
            except Exception:
                pass

    def compare(self):
        vs = [i for i in range(len(self.o)) if self.k[i] == 'V' and not [f for f in self.o[i].data() if single(f) != f]][-3:]
        for i in vs:
            for j in vs:
                try:
                    d = Vector3.dist_squared(self.o[i], self.o[j])
                    self.ev.append({'op': 'dist', 'a': i + 1, 'b': j + 1, 'd': me(d), 'err': ''})
                except Exception, x:
                    self.ev.append({'op': 'dist', 'a': i + 1, 'b': j + 1, 'd': {'m': 0, 'e': 0}, 'err': common.errname(x)})
        us = [i for i in range(len(self.o)) if self.k[i] == 'U']
        us = us[-6:]
        for i in us:
            for j in us:
                a, b = self.o[i], self.o[j]
                self.ev.append({'op': 'eq', 'a': i + 1, 'b': j + 1, 'eq': a == b, 'ne': a != b, 'he': hash(a) == hash(b)})
            for y in (None, 5, object()):
                self.ev.append({'op': 'foreign', 'eq': self.o[i] == y, 'ne': self.o[i] != y})


def run(scn):
    w = World()
    for op in scn['ops']:
        if not w.step(op):
            break
    else:
        w.compare()
    return {'id': scn['id'], 'cfg': {}, 'ev': w.ev}


if __name__ == '__main__':
    common.main(run)
