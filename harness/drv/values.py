"""Python values from the abstract ones of scenarios, and tokens that stand for values"""
import uuid
from llbase import llsd
from pyogp.lib.base.datatypes import UUID


def val(x):
    """[tag, payload] -> Python value"""
    t, p = x[0], x[1]
    if t == 'i':
        return p
    if t == 'b':
        return bool(p)
    if t == 'f':
        return float(p)
    if t == 's':
        return str(p.encode('utf-8'))
    if t == 'S':
        return p
    if t == 'u':
        return uuid.UUID(p)
    if t == 'U':
        return UUID(p)
    if t == 'y':
        return llsd.binary(''.join([chr(c) for c in p]))
    if t == 'l':
        return [val(y) for y in p]
    if t == 'm':
        return dict([(k, val(p[k])) for k in p])
    return None


def tok(v):
    """equal tokens, equal values"""
    if v is None:
        return 'n'
    if v is True or v is False:
        return v and 'b1' or 'b0'
    if isinstance(v, (int, long)):
        return 'i%d' % v
    if isinstance(v, float):
        return 'f%r' % v
    if isinstance(v, llsd.binary):
        return 'y' + ''.join(['%02x' % ord(c) for c in v])
    if isinstance(v, unicode):
        return 's' + v.encode('utf-8').encode('hex')
    if isinstance(v, str):
        return 's' + v.encode('hex')
    if isinstance(v, (uuid.UUID, UUID)):
        return 'u' + str(v)
    if isinstance(v, (list, tuple)):
        return 'l[%s]' % ','.join([tok(x) for x in v])
    if isinstance(v, dict):
        return 'm{%s}' % ','.join(['%s=%s' % (k, tok(v[k])) for k in sorted(v.keys())])
    return '?' + repr(type(v))
