"""drives the encoder and decoder of datagrams

cfg: {templates: [...], source: 'embedded' | 'given', barred: [...], xml: 'none' (bars nothing) | 'embedded' | 'given'}
"""
import os
import struct
import uuid
import common
import wire
import StringIO
from pyogp.lib.base.message.udpserializer import UDPMessageSerializer
from pyogp.lib.base.message.udpdeserializer import UDPMessageDeserializer
from pyogp.lib.base.message.message_dot_xml import MessageDotXML
from pyogp.lib.base.message.message_handler import MessageHandler
from pyogp.lib.base.message.message import Message, Block
from pyogp.lib.base.message.msgtypes import MsgType
from pyogp.lib.base.message.udpdispatcher import UDPDispatcher
from pyogp.lib.base.message.circuit import Host
from pyogp.lib.base.message_manager import MessageManager
from pyogp.lib.base.network.net import NetUDPClient
from pyogp.lib.base.settings import Settings
from pyogp.lib.base.datatypes import UUID, Vector3, Quaternion

SIGNED = ('S8', 'S16', 'S32', 'S64')
UNSIGNED = ('U8', 'U16', 'U32', 'U64', 'BOOL', 'IPPORT')


def floats(b, w):
    c = {4: '>f', 8: '>d'}[w]
    return [struct.unpack(c, wire.b2s(b[i:i + w]))[0] for i in range(0, len(b), w)]


def to_py(f, b, form):
    """the Python value standing for the bytes b"""
    t = f['type']
    if t in SIGNED or t in UNSIGNED:
        n = wire.from_be(b)
        if t in SIGNED and b[0] >= 128:
            n -= 1 << (8 * len(b))
        if t == 'BOOL' and n < 2 and form % 2:
            return bool(n)
        if form % 3 == 1:
            return long(n)
        return n
    if t == 'F32' or t == 'F64':
        v = floats(b, f['size'])[0]
        if v == int(v) and abs(v) < 1000 and form % 2 and not (v == 0 and b[0]):
            return int(v)
        return v
    if t == 'LLVector3':
        v = floats(b, 4)
        return form % 2 and Vector3(X=v[0], Y=v[1], Z=v[2]) or tuple(v)
    if t == 'LLVector3d':
        return tuple(floats(b, 8))
    if t == 'LLVector4':
        return tuple(floats(b, 4))
    if t == 'LLQuaternion':
        v = floats(b, 4)
        return form % 2 and Quaternion(X=v[0], Y=v[1], Z=v[2], W=v[3]) or tuple(v)
    if t == 'LLUUID':
        s = wire.b2s(b)
        if form % 3 == 0:
            return UUID(bytes=s, offset=0)
        if form % 3 == 1:
            return UUID(str(uuid.UUID(bytes=s)))
        return uuid.UUID(bytes=s)
    s = wire.b2s(b)
    if t == 'Variable':
        if not s and form % 3 == 1:
            return None
        if form % 3 == 2:
            try:
                return s.decode('utf-8')
            except Exception:
                pass
    return s


def from_py(f, v):
    """the bytes a decoded value stands for; [-1] if it is not of the right kind"""
    t, n = f['type'], f['size']
    try:
        if t in SIGNED or t in UNSIGNED:
            v = int(v)
            lo, hi = t in SIGNED and (-(1 << (8 * n - 1)), 1 << (8 * n - 1)) or (0, 1 << (8 * n))
            if not lo <= v < hi:
                return [-1]
            return wire.be(v % (1 << (8 * n)), n)
        if t == 'F32':
            return wire.s2b(struct.pack('>f', v))
        if t == 'F64':
            return wire.s2b(struct.pack('>d', v))
        if t == 'LLVector3':
            if isinstance(v, Vector3):
                v = (v.X, v.Y, v.Z)
            if len(v) != 3:
                return [-1]
            return wire.s2b(struct.pack('>3f', *v))
        if t == 'LLVector3d':
            if len(v) != 3:
                return [-1]
            return wire.s2b(struct.pack('>3d', *v))
        if t == 'LLVector4':
            if len(v) != 4:
                return [-1]
            return wire.s2b(struct.pack('>4f', *v))
        if t == 'LLQuaternion':
            if isinstance(v, Quaternion):
                v = (v.X, v.Y, v.Z, v.W)
            if len(v) != 4:
                return [-1]
            return wire.s2b(struct.pack('>4f', *v))
        if t == 'LLUUID':
            if isinstance(v, uuid.UUID):
                return wire.s2b(v.bytes)
            return wire.s2b(v.get_bytes())
        if isinstance(v, unicode):
            v = v.encode('utf-8')
        if not isinstance(v, str):
            return [-1]
        return wire.s2b(v)
    except Exception:
        return [-1]


def message(t, op):
    """builds the message of an enc op through the public classes"""
    form = op.get('form', 0)
    lack = op['lack'].split(':')
    args = []
    zero = []
    for b, insts in zip(t['blocks'], op['insts']):
        if lack == ['block', b['name']]:
            continue
        bl = []
        for j, inst in enumerate(insts):
            vs = {}
            for f, v in zip(b['fields'], inst):
                if lack == ['field', b['name'], f['name']] and j == len(insts) - 1:
                    continue
                form = (form * 7 + 5) % 11
                vs[str(f['name'])] = to_py(f, v, form)
            bl.append(Block(str(b['name']), **vs))
        if not bl:
            zero.append(str(b['name']))
        elif len(bl) == 1 and form % 2:
            args.append(bl[0])
        else:
            args.append(bl)
    if form % 3 == 0:
        args.reverse()
    m = Message(str(t['name']), *args)
    for n in zero:
        m.blocks[n] = []
    m.send_flags = op['flags']
    m.packet_id = wire.from_be(op['seq'])
    for a in op['acks']:
        m.add_ack(wire.from_be(a))
    return m


class Client(object):
    """stands in for the UDP client"""
    def __init__(self, *args, **kw):
        self.sent = []

    def start_udp_connection(self, *args, **kw):
        return 'socket'

    def send_packet(self, sock, send_buf, host):
        self.sent.append(send_buf)

    def get_sender(self):
        return Host(('127.0.0.1', 9000))

    def receive_packet(self, sock):
        return '', 0


for _n in ('start_udp_connection', 'send_packet', 'get_sender', 'receive_packet'):
    setattr(NetUDPClient, _n, Client.__dict__[_n])   # no real sockets here


class World(object):

    def __init__(self, cfg, scratch):
        self.cfg = cfg
        self.before = None
        self.ts = cfg['templates']
        self.by = dict([(t['name'], t) for t in self.ts])
        settings = Settings(True)
        settings.ENABLE_DEFERRED_PACKET_PARSING = False
        if cfg['xml'] == 'embedded':
            xml = MessageDotXML()
        else:
            ent = [common.XML_ENTRY % (n, fl) for n, fl in cfg.get('flavors', [])]
            text = common.XML_SMALL % ''.join(ent)
            if cfg.get('caps'):
                # what else a configuration says, of no concern here
                text = text.replace('<key>capBans</key><map/>', '<key>capBans</key><map>%s</map>' % ''.join(
                    ['<key>%s</key><boolean>%d</boolean>' % (n, v) for n, v in cfg['caps']]))
                text = text.replace('<boolean>0</boolean></map>', '<boolean>1</boolean><key>only-send-latest</key><boolean>1</boolean></map>')
            xml = MessageDotXML(message_xml=text)
        self.via = cfg.get('via', 'direct')
        self.port = 20000
        if self.via != 'direct':
            self.dispatcher(settings, scratch, xml)
        elif cfg['source'] == 'embedded':
            self.ser = shared('ser', lambda: UDPMessageSerializer())
            self.de = shared('de', lambda: UDPMessageDeserializer(MessageHandler(settings), settings))
            self.ser.message_xml = xml
            self.de.message_xml = xml
        else:
            p = os.path.join(scratch, 'codec.msg')
            f = open(p, 'w')
            f.write(wire.text_of(self.ts))
            f.close()
            f = open(p)
            self.ser = UDPMessageSerializer(message_template=f, message_xml=xml)
            if common.bare() == 2:
                self.de = UDPMessageDeserializer(message_template=f, message_xml=xml)
                common.like(self.de.settings, settings)
            elif common.bare() == 1:
                self.de = UDPMessageDeserializer(settings=settings, message_template=f, message_xml=xml)
            else:
                self.de = UDPMessageDeserializer(MessageHandler(settings), settings, message_template=f, message_xml=xml)
            f.close()

    def dispatcher(self, settings, scratch, xml):
        """the files are given to a message manager or a dispatcher, as an application does"""
        p = os.path.join(scratch, 'codec.msg')
        f = open(p, 'w')
        f.write(wire.text_of(self.ts))
        f.close()
        q = os.path.join(scratch, 'codec.xml')
        f = open(q, 'w')
        f.write(xml.raw_llsd)
        f.close()
        self.host = Host(('127.0.0.1', 9000))
        kw = {}
        if self.cfg['source'] == 'given':
            kw['message_template'] = open(p)
        if self.via == 'manager':
            if self.cfg['xml'] != 'embedded':
                kw['message_xml'] = open(q)
            if common.bare() == 0:
                kw['message_handler'] = MessageHandler(settings)
            if common.bare() < 2:
                kw['settings'] = settings
            self.mm = MessageManager(self.host, **kw)
            common.like(self.mm.settings, settings)
            self.d = self.mm.udp_dispatcher
        else:
            if self.cfg['xml'] != 'embedded':
                kw['message_xml'] = xml
            if common.bare() == 0:
                kw['message_handler'] = MessageHandler(settings)
            if common.bare() < 2:
                kw['settings'] = settings
            self.d = UDPDispatcher(Client(), **kw)
            common.like(self.d.settings, settings)
        self.d.udp_client = self.client = Client()

    def encode(self, m, op, ev):
        if self.via == 'direct':
            return self.ser.serialize(m)
        rel = bool(op['flags'] & 0x40)
        ev['flags'] = rel and 0x40 or 0
        ev['acks'] = []
        m.acks = []
        m.num_acks = 0
        m.send_flags = 0
        self.client.sent = []
        try:
            if self.via == 'manager':
                self.mm.send_udp_message(m, rel)
            elif rel:
                self.d.send_reliable(m, self.host, 0)
            else:
                self.d.send_message(m, self.host)
        finally:
            sent = self.client.sent
        if len(sent) != 1:
            ev['err'] = 'nothing sent'      # the dispatcher logs why
            return None
        ev['seq'] = wire.s2b(sent[0][1:5])
        return sent[0]

    def decode(self, data):
        if self.via == 'direct':
            return self.de.deserialize(data)
        self.port += 1       # every datagram from another host, so that no circuit state comes in
        return self.d.receive_check(Host(('10.0.0.1', self.port)), data, len(data))

    def step(self, op):
        ev = {}
        for k in op:
            if k != 'form':
                ev[k] = op[k]
        data = None
        if op['op'] in ('enc', 'rt'):
            t = self.ts[op['t'] - 1]
            ev['out'], ev['made'], ev['err'] = [], False, ''
            ev['bytes'] = []
            try:
                m = message(t, op)
                if op.get('form', 0) % 4 == 3:
                    # made once before: making bytes of a message leaves it as it was
                    try:
                        self.encode(m, op, dict(ev))
                    except Exception:
                        pass
                    m.send_flags = op['flags']
                    m.packet_id = wire.from_be(op['seq'])
                r = self.encode(m, op, ev)
                if r is not None:
                    data = r
                    ev['out'] = wire.s2b(r)
                    ev['made'] = True
            except Exception, e:
                ev['err'] = common.errname(e)
        if op['op'] == 'dec':
            data = wire.b2s(op['bytes'])
        if op['op'] in ('dec', 'rt'):
            ev.update({'got': False, 'name': '', 'gflags': -1, 'gseq': [], 'gacks': [], 'ginsts': [], 'clean': True, 'derr': ''})
            if data is not None:
                if op.get('form', len(data)) % 4 == 2:
                    # read once before, and what was read scribbled over
                    try:
                        self.scribble(self.decode(data))
                    except Exception:
                        pass
                try:
                    m = self.decode(data)
                    if m is not None:
                        self.read(m, ev)
                        # what was read before is as it was
                        if self.before and self.again(self.before[0]) != self.before[1]:
                            ev['clean'] = False
                        self.before = (m, self.again(m))
                except Exception, e:
                    ev['derr'] = common.errname(e)
        return ev

    def again(self, m):
        ev = {'ginsts': []}
        self.read(m, ev)
        return ev

    def scribble(self, m):
        for bl in m.blocks.values():
            for b in bl:
                for v in b.vars.values():
                    v.data = 'scribble'
            bl.append(None)
        m.blocks['scribble'] = []
        m.acks.append(77)
        m.name, m.send_flags, m.packet_id = 'scribble', 0, 0

    def read(self, m, ev):
        ev['got'] = True
        ev['name'] = common.text(m.name)
        ev['gflags'] = common.small(m.send_flags)
        ev['gseq'] = wire.be(m.packet_id, 4)
        ev['gacks'] = [wire.be(a, 4) for a in m.acks]
        t = self.by.get(ev['name'])
        if bool(m.reliable) != bool(m.send_flags & 0x40):
            ev['clean'] = False
        if t is None:
            return
        names = [b['name'] for b in t['blocks']]
        for n in m.blocks:
            if n not in names:
                ev['clean'] = False
        for b in t['blocks']:
            out = []
            for i, inst in enumerate(m.blocks.get(b['name'], [])):
                fs = [f['name'] for f in b['fields']]
                if inst.name != b['name'] or [v for v in inst.vars if v not in fs]:
                    ev['clean'] = False
                out.append([f['name'] in inst.vars and from_py(f, inst.vars[f['name']].data) or
                            (f['name'] not in inst.vars and [-1] or []) for f in b['fields']])
            ev['ginsts'].append(out)


_shared = {}


def shared(k, make):
    if k not in _shared:
        _shared[k] = make()
    return _shared[k]


def run(scn):
    w = World(scn['cfg'], os.path.dirname(os.path.abspath(common.OUT)))
    evs = [w.step(op) for op in scn['ops']]
    return {'id': scn['id'], 'cfg': {'templates': scn['cfg']['templates'], 'barred': scn['cfg']['barred']}, 'ev': evs}


if __name__ == '__main__':
    common.main(run)
