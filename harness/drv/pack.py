"""drives DataPacker, DataUnpacker and sizeof"""
import math
import common
from pyogp.lib.base.message.data_packer import DataPacker
from pyogp.lib.base.message.data_unpacker import DataUnpacker
from pyogp.lib.base.message.msgtypes import MsgType, EndianType, sizeof
from pyogp.lib.base.datatypes import Vector3

ORDER = {'': EndianType.NONE, 'big': EndianType.BIG, 'little': EndianType.LITTLE, 'net': EndianType.NETWORK}
COUNT = {'LLVector3': 3, 'LLVector3d': 3, 'LLVector4': 4}


def digits(n):
    out = []
    while n:
        out.append(int(n % 2))
        n //= 2
    return out[::-1]


def shown(t, x):
    """a number as sign, binary digits and exponent"""
    if t in ('F32', 'F64') or t in COUNT:
        if not isinstance(x, float):
            return {'neg': False, 'bits': [2], 'e': 0}
        if x != x:
            return {'neg': False, 'bits': [], 'e': 9998}
        neg = math.copysign(1, x) < 0
        if x in (1e400, -1e400):
            return {'neg': neg, 'bits': [], 'e': 9999}
        if x == 0:
            return {'neg': neg, 'bits': [], 'e': 0}
        f, e = math.frexp(abs(x))
        m = int(math.ldexp(f, 53))
        e -= 53
        while m % 2 == 0:
            m //= 2
            e += 1
        return {'neg': neg, 'bits': digits(m), 'e': e}
    if not isinstance(x, (int, long)):
        return {'neg': False, 'bits': [2], 'e': 0}
    return {'neg': x < 0, 'bits': digits(abs(x)), 'e': 0}


def number(t, v):
    n = 0L
    for b in v['bits']:
        n = 2 * n + b
    if t in ('F32', 'F64') or t in COUNT:
        if v['e'] == 9999:
            x = 1e400
        else:
            # in two steps, as one may leave the range
            x = math.ldexp(math.ldexp(float(n), v['e'] // 2), v['e'] - v['e'] // 2)
        if v['neg']:
            return -x
        return x
    return v['neg'] and -n or n


class World(object):
    def __init__(self):
        self.p = DataPacker()
        self.u = DataUnpacker()
        self.buf = ''

    def step(self, op):
        ev = {'op': op['op'], 'err': '', 't': op.get('t', ''), 'out': [], 'v': [], 'order': op.get('order', ''), 'off': op.get('off', 0), 'n': 0}
        t = ev['t']
        ty = t and getattr(MsgType, 'MVT_' + t) or 0
        try:
            if op['op'] == 'size':
                ev['n'] = sizeof(ty)
            elif op['op'] == 'raw':
                b = ''.join([chr(c) for c in op['bytes']])
                self.buf += b
                ev['out'] = list(op['bytes'])
            elif op['op'] == 'put':
                ev['v'] = op['v']
                xs = [number(t, v) for v in op['v']]
                if t == 'BOOL' and op.get('bool') and xs[0] in (0, 1):
                    xs = [xs[0] == 1]
                elif t not in COUNT and t not in ('F32', 'F64') and op.get('int') and abs(xs[0]) < 2 ** 31:
                    xs = [int(xs[0])]
                x = xs[0]
                if t in COUNT:
                    x = tuple(xs)
                    if t == 'LLVector3' and op.get('obj'):
                        x = Vector3(X=xs[0], Y=xs[1], Z=xs[2])
                out = ev['order'] and self.p.pack_data(x, ty, endian_type=ORDER[ev['order']]) or self.p.pack_data(x, ty)
                ev['out'] = [ord(c) for c in out]
                self.buf += out
            elif op['op'] == 'cut':
                ev['n'] = op['n']
                x = self.u.unpack_data(self.buf, ty, op['off'], var_size=op['n'])
                ev['out'] = [ord(c) for c in (t == 'LLUUID' and x.get_bytes() or x)]
            elif op['op'] == 'get':
                kw = {}
                if ev['order']:
                    kw['endian_type'] = ORDER[ev['order']]
                if op.get('size'):
                    kw['var_size'] = sizeof(ty)
                n = op.get('whole')
                if n:
                    x = self.u.unpack_data(self.buf[ev['off']:ev['off'] + n], ty, **kw)
                elif op.get('named'):
                    x = self.u.unpack_data(self.buf, ty, start_index=ev['off'], **kw)
                else:
                    x = self.u.unpack_data(self.buf, ty, ev['off'], **kw)
                if t == 'LLVector3':
                    x = x()
                if t in COUNT:
                    ev['v'] = [shown(t, y) for y in x]
                else:
                    ev['v'] = [shown(t, x)]
        except Exception, e:
            ev['err'] = common.errname(e)
        return ev


def run(scn):
    w = World()
    return {'id': scn['id'], 'cfg': {}, 'ev': [w.step(op) for op in scn['ops']]}


if __name__ == '__main__':
    common.main(run)
