"""drives the template parser and dictionary"""
import os
import common
import wire
from pyogp.lib.base.message.template_parser import MessageTemplateParser
from pyogp.lib.base.message.template_dict import TemplateDictionary
from pyogp.lib.base.message.msgtypes import MsgType, MsgFrequency, MsgTrust, MsgEncoding, MsgDeprecation, MsgBlockType

TYPE = dict([(getattr(MsgType, 'MVT_' + n), k) for n, k in [
    ('FIXED', 'Fixed'), ('VARIABLE', 'Variable'), ('U8', 'U8'), ('U16', 'U16'), ('U32', 'U32'), ('U64', 'U64'), ('S8', 'S8'),
    ('S16', 'S16'), ('S32', 'S32'), ('S64', 'S64'), ('F32', 'F32'), ('F64', 'F64'), ('LLVector3', 'LLVector3'),
    ('LLVector3d', 'LLVector3d'), ('LLVector4', 'LLVector4'), ('LLQuaternion', 'LLQuaternion'), ('LLUUID', 'LLUUID'),
    ('BOOL', 'BOOL'), ('IP_ADDR', 'IPADDR'), ('IP_PORT', 'IPPORT')]])
FREQ = {MsgFrequency.FIXED_FREQUENCY_MESSAGE: 'Fixed', MsgFrequency.LOW_FREQUENCY_MESSAGE: 'Low',
        MsgFrequency.MEDIUM_FREQUENCY_MESSAGE: 'Medium', MsgFrequency.HIGH_FREQUENCY_MESSAGE: 'High'}
TRUST = {MsgTrust.LL_TRUSTED: 'Trusted', MsgTrust.LL_NOTRUST: 'NotTrusted'}
ENC = {MsgEncoding.LL_UNENCODED: 'Unencoded', MsgEncoding.LL_ZEROCODED: 'Zerocoded'}
DEP = {MsgDeprecation.LL_DEPRECATED: 'Deprecated', MsgDeprecation.LL_UDPDEPRECATED: 'UDPDeprecated',
       MsgDeprecation.LL_UDPBLACKLISTED: 'UDPBlackListed', MsgDeprecation.LL_NOTDEPRECATED: 'NotDeprecated'}
KIND = {MsgBlockType.MBT_SINGLE: 'Single', MsgBlockType.MBT_MULTIPLE: 'Multiple', MsgBlockType.MBT_VARIABLE: 'Variable'}


def ast(t):
    return {'name': common.text(t.name), 'freq': FREQ.get(t.frequency, '?'), 'num': common.small(t.msg_num),
            'trust': TRUST.get(t.msg_trust, '?'), 'enc': ENC.get(t.msg_encoding, '?'), 'dep': DEP.get(t.msg_deprecation, '?'),
            'blocks': [{'name': common.text(b.name), 'kind': KIND.get(b.block_type, '?'),
                        'n': b.block_type == MsgBlockType.MBT_MULTIPLE and common.small(b.number) or 0,
                        'fields': [{'name': common.text(v.name), 'type': TYPE.get(v.type, '?'), 'size': common.small(v.size)}
                                   for v in b.get_variables()]} for b in t.get_blocks()]}


def shown(t):
    """the same, asked for in words and by the names of the parts"""
    r = {'name': common.text(t.get_name()), 'hex': [], 'blocks': []}
    h = t.get_message_hex_num()
    r['hex'] = [int(h[i:i + 2], 16) for i in range(0, len(h), 2)]
    for k, f in [('freq', t.get_frequency_as_string), ('trust', t.get_message_trust_as_string), ('enc', t.get_message_encoding_as_string),
                 ('dep', t.get_deprecation_as_string)]:
        s = f()
        r[k] = common.text(s[:1].upper() + s[1:])
    r['num'] = common.small(t.get_message_number())
    names = [b.get_name() for b in t.get_blocks()]
    for b in t.get_blocks():
        if names.count(b.get_name()) == 1:
            b = t.get_block(b.get_name())
        fs = []
        vs = [v.get_name() for v in b.get_variables()]
        for v in b.get_variables():
            if vs.count(v.get_name()) == 1:
                v = b.get_variable(v.get_name())
            y = v.get_type_as_string()
            y = {'MVT_FIXED': 'Fixed', 'MVT_VARIABLE': 'Variable', 'MVT_IP_ADDR': 'IPADDR', 'MVT_IP_PORT': 'IPPORT'}.get(y, y[4:])
            fs.append({'name': common.text(v.get_name()), 'type': common.text(y), 'size': common.small(v.size)})
        k = b.get_block_type_as_string()
        r['blocks'].append({'name': common.text(b.get_name()), 'kind': common.text(k), 'n': k == 'Multiple' and common.small(b.get_block_number()) or 0, 'fields': fs})
    return r


def name_of(t):
    return t is not None and common.text(t.name) or ''


def run(scn):
    evs = []
    ds = []
    for op in scn['ops']:
        ev = dict([(k, op[k]) for k in op if k != 'text'])
        if op['op'] == 'parse':
            ev['got'], ev['shown'], ev['names'], ev['err'] = [], [], [], ''
            try:
                if op.get('embedded'):
                    d = TemplateDictionary()
                    ts = d.template_list
                else:
                    p = os.path.join(os.path.dirname(os.path.abspath(common.OUT)), 'tpl.msg')
                    f = open(p, 'wb')
                    f.write(op['text'].encode('utf-8'))
                    f.close()
                    f = open(p)
                    if op.get('list'):
                        ts = MessageTemplateParser(f).message_templates
                        d = TemplateDictionary(ts)
                    else:
                        d = TemplateDictionary(message_template=f)
                        ts = d.template_list
                    f.close()
                ev['got'] = [ast(t) for t in ts]
                ev['shown'] = [shown(t) for t in ts]
                ev['names'] = op.get('list') and [common.text(t.name) for t in ts] or [common.text(n) for n in d.get_template_list()]
            except Exception, e:
                ev['err'] = common.errname(e)
                d = None
            ds.append(d)
        elif op['op'] == 'name':
            ev['got'], ev['hex'] = '', []
            d = ds[op['d'] - 1]
            if d is not None:
                t = op.get('idx') and d[str(op['name'])] or d.get_template(str(op['name']))
                ev['got'] = name_of(t)
                if t is not None:
                    ev['hex'] = wire.s2b(t.msg_num_hex)
        elif op['op'] == 'pair':
            d = ds[op['d'] - 1]
            ev['got'] = d is not None and name_of(d.get_template_by_pair(str(op['freq']), op['num'])) or ''
        evs.append(ev)
    return {'id': scn['id'], 'cfg': {'kind': 'tpl'}, 'ev': evs}


if __name__ == '__main__':
    common.main(run)
