# helpers shared by the demonstrations
import sys, traceback, logging
logging.basicConfig(stream=sys.stdout, level=logging.CRITICAL)


class Client(object):
    """a udp client that records what is sent"""
    def __init__(self):
        self.sent = []
        self.inbox = []
        self.sender = None

    def start_udp_connection(self):
        return None

    def get_sender(self):
        return self.sender

    def send_packet(self, sock, buf, host):
        self.sent.append((host.ip, host.port, buf))

    def receive_packet(self, sock):
        if not self.inbox:
            return '', 0
        self.sender, data = self.inbox.pop(0)
        return data, len(data)


def dispatcher(**kw):
    from pyogp.lib.base.message.udpdispatcher import UDPDispatcher
    client = Client()
    return UDPDispatcher(client, **kw), client


def host(ip='1.2.3.4', port=1000):
    from pyogp.lib.base.message.circuit import Host
    return Host((ip, port))


def ping(n=1, flags=0, seq=1, acks=()):
    """a StartPingCheck datagram"""
    import struct
    buf = struct.pack('>BIB', flags, seq, 0) + '\x01' + struct.pack('<BI', n, 0)
    if acks:
        buf += ''.join(struct.pack('>I', a) for a in acks) + chr(len(acks))
    return buf


def packet_ack(ids, flags=0, seq=1, acks=()):
    import struct
    buf = struct.pack('>BIB', flags, seq, 0) + '\xff\xff\xff\xfb' + chr(len(ids)) + ''.join(struct.pack('<I', i) for i in ids)
    if acks:
        buf += ''.join(struct.pack('>I', a) for a in acks) + chr(len(acks))
    return buf


def message(n=1):
    from pyogp.lib.base.message.message import Message, Block
    return Message('StartPingCheck', Block('PingID', PingID=n, OldestUnacked=0))


def appended(buf):
    import struct
    if not ord(buf[0]) & 0x10:
        return []
    n = ord(buf[-1])
    return list(struct.unpack('>%dI' % n, buf[-1 - 4 * n:-1]))


def body_acks(buf):
    """numbers in a PacketAck"""
    import struct
    if buf[6:10] != '\xff\xff\xff\xfb':
        return None
    return list(struct.unpack('<%dI' % ord(buf[10]), buf[11:11 + 4 * ord(buf[10])]))


def run(fn):
    try:
        fn()
    except:
        traceback.print_exc(file=sys.stdout)
        sys.stdout.flush()
        sys.exit(1)
    print 'ok'
    sys.exit(0)
