D = 'from demolib import *\n'
seed('s23', 'C23', [('message/udpdeserializer.py', '''                    logger.debug('Received packet : %s (Skipping)' % (self.current_template.name))
''', '''                    logger.debug('Received packet : %s (Skipping) %s' % (self.current_template.name, self.__decode_data(msg_buff).packet_id))
''')], 'verbose logging of skipped packets, and a reliable datagram nobody handles whose body is cut short',
'the reception raises and the datagram is not acknowledged, only under that logging', D + '''
def main():
    from pyogp.lib.base.settings import Settings
    import struct
    res = []
    for verbose in (False, True):
        s = Settings(True)
        if verbose:
            s.LOG_VERBOSE = s.ENABLE_UDP_LOGGING = s.LOG_SKIPPED_PACKETS = True
        d, c = dispatcher(settings=s)
        b = struct.pack('>BIB', 0x40, 7, 0) + '\\xff\\xff\\x00\\x50' + 'abc'
        try:
            r = d.receive_check(host(), b, len(b))
        except Exception, e:
            r = type(e).__name__
        res.append((r, d.find_circuit(host()).acks))
    assert res[0] == res[1], res
run(main)
''')
seed('s24', 'C24', [('message_manager.py', '''        while self._is_running:
            api.sleep(0)
''', '''        while True:
            api.sleep(0)
            if not self._is_running:
                break
''')], 'a message enqueued right before a stop, both while the loop sleeps',
'the loop ends without sending it', D + '''
def main():
    from pyogp.lib.base.message_manager import MessageManager
    from pyogp.lib.base.settings import Settings
    from eventlet import api
    m = MessageManager(host(), settings=Settings(True))
    c = Client()
    m.udp_dispatcher.udp_client = c
    def sleep(n=0):
        m.enqueue_message(message(5))
        m.stop_monitors()
    api.sleep = sleep
    m._is_running = True
    m._udp_dispatcher()
    assert len(c.sent) == 1, c.sent
run(main)
''')
seed('s25', 'C25', [('message/circuit.py', '''        for ack_packet_id in packet.acks:
            self.ack_reliable_packet(ack_packet_id)
''', '''        # what is sent again only repeats old acks
        if not packet.send_flags & PackFlags.LL_RESENT_FLAG:
            for ack_packet_id in packet.acks:
                self.ack_reliable_packet(ack_packet_id)
''')], 'a message sent with retries whose acknowledgement arrives appended to a datagram flagged as resent (the first transmission of it was lost)',
'the acknowledged message is transmitted again', D + '''
def main():
    d, c = dispatcher()
    h = host()
    d.send_reliable(message(), h, 5)
    b = ping(1, 0x30, 1, [1])
    d.receive_check(h, b, len(b))
    n = len(c.sent)
    d.process_acks()
    assert [x for x in c.sent[n:] if ord(x[2][0]) & 0x20] == []
run(main)
''')
seed('s26', 'C26', [('network/net.py', '''        bytes = sock.sendto(send_buffer, (host.ip, host.port))
''', '''        # the addresses sent to before
        address = self.peers.setdefault(host.port, (host.ip, host.port))
        bytes = sock.sendto(send_buffer, address)
'''), ('network/net.py', '''    def __init__(self):
        self.sender = Host((None, None))
''', '''    def __init__(self):
        self.sender = Host((None, None))
        self.peers = {}
''')], 'sends to two hosts with the same port', 'the second send goes to the first host', D + '''
def main():
    from pyogp.lib.base.network.net import NetUDPClient
    class Sock:
        sent = []
        def sendto(self, b, a):
            self.sent.append(a)
            return len(b)
    u = NetUDPClient()
    s = Sock()
    for ip in ('1.1.1.1', '2.2.2.2', '1.1.1.1'):
        u.send_packet(s, 'x', host(ip, 9))
    assert s.sent == [('1.1.1.1', 9), ('2.2.2.2', 9), ('1.1.1.1', 9)], s.sent
run(main)
''')
seed('t01', 'C01', [('message/circuit.py', '''        self.last_packet_out_id += 1
        return self.last_packet_out_id
''', '''        self.last_packet_out_id += 1
        if self.last_packet_out_id > 0xFFFF:
            self.last_packet_out_id = 1
        return self.last_packet_out_id
''')], 'more than 65535 datagrams to one host', 'numbers are given a second time', D + '''
def main():
    d, c = dispatcher()
    h = host()
    d.find_circuit(h).last_packet_out_id = 65530
    for i in range(8):
        d.send_message(message(), h)
    import struct
    got = [struct.unpack('>I', b[1:5])[0] for x, y, b in c.sent]
    assert got == range(65531, 65539), got
run(main)
''')
seed('t02', 'C02', [('message/udpdispatcher.py', """        circuit = self.circuit_manager.get_circuit(host)
        if circuit == None:
            #there""", """        circuit = self.circuit_manager.get_circuit(host)
        if circuit == None and host.ip is not None:
            # a host may be known under its name with trailing dots or spaces
            for known in self.circuit_manager.circuit_map.values():
                if known.host.port == host.port and str(known.host.ip).startswith(str(host.ip)):
                    circuit = known
        if circuit == None:
            #there""")], 'two hosts of one port, the address of the later one being a prefix of that of the first (10.0.0.11 and 10.0.0.1)',
'an acknowledgement from one releases the message outstanding for the other', D + """
def main():
    d, c = dispatcher()
    a, b = host('10.0.0.11', 9000), host('10.0.0.1', 9000)
    d.send_reliable(message(), a, 0)
    p = packet_ack([1])
    d.receive_check(b, p, len(p))
    assert d.find_circuit(a).unacked_packets.keys() == [1]
run(main)
""")
seed('t03', 'C03', [('message/udpdispatcher.py', '''            if len(circuit.acks) > 0:
                return True

        return False
''', '''            return len(circuit.acks) > 0

        return False
''')], 'two hosts, of which only the second (in the order of the circuits) awaits acknowledgements, behind a running message manager',
'its reliable datagrams are never acknowledged', D + '''
def main():
    d, c = dispatcher()
    hs = [host('1.1.1.%d' % i, 100 + i) for i in range(6)]
    for h in hs:
        d.find_circuit(h)
    for h in hs:
        b = ping(1, 0x40, 9)
        d.receive_check(h, b, len(b))
        assert d.has_unacked(), h
        d.process_acks()
        assert c.sent[-1][0] == h.ip
run(main)
''')
seed('t04', 'C04', [('message/udpdeserializer.py', '''            acks = self.unpacker.unpack_data(data, MsgType.MVT_U8, msg_size)
            ack_start''', '''            acks = self.unpacker.unpack_data(data, MsgType.MVT_S8, msg_size)
            ack_start''')], 'a datagram with more than 127 appended acknowledgements',
'they are not read', D + '''
def main():
    d, c = dispatcher()
    d.message_handler.register('StartPingCheck')
    h = host()
    for n in (127, 128, 255):
        b = ping(1, 0x10, n, range(1, n + 1))
        r = d.receive_check(h, b, len(b))
        assert r.acks == range(1, n + 1), (n, r.acks)
run(main)
''')
seed('t05', 'C05', [('message/udpdeserializer.py', '''        packet.name = self.current_template.name

        #determine packet flags
''', '''        packet.name = self.current_template.name
        packet.trusted = self.current_template.msg_trust == 0

        #determine packet flags
''')], 'a message that the template declares trusted, arriving on a trusted circuit',
'it passes for a trusted one without being one', D + '''
def main():
    from pyogp.lib.base.message.template_dict import TemplateDictionary
    import struct
    d, c = dispatcher()
    h = host()
    d.find_circuit(h).is_trusted = True
    got = []
    for name in ('AddCircuitCode', 'TelehubInfo', 'StartPingCheck', 'CompletePingCheck', 'KickUserAck', 'TestMessage'):
        t = TemplateDictionary().get_template(name)
        d.message_handler.register(name).subscribe(got.append)
        b = struct.pack('>BIB', 0, 1, 0) + t.msg_num_hex + '\\0' * 100
        assert d.receive_check(h, b, len(b)) is None, name
    assert got == [], got
run(main)
''')
seed('t06', 'C06', [('message/udpdispatcher.py', '''        for circuit in self.circuit_manager.circuit_map.values():

            acks_this_packet = 0
            msg = None

''', '''        acks_this_packet = 0
        msg = None

        for circuit in self.circuit_manager.circuit_map.values():

''')], 'two hosts that both await acknowledgements at the same flush',
'the second one gets the numbers of the first one as well', D + '''
def main():
    d, c = dispatcher()
    a, b = host('1.1.1.1', 1), host('2.2.2.2', 2)
    for h, s in ((a, 11), (b, 22)):
        p = ping(1, 0x40, s)
        d.receive_check(h, p, len(p))
    d.process_acks()
    got = dict((x, body_acks(z)) for x, y, z in c.sent)
    assert got == {'1.1.1.1': [11], '2.2.2.2': [22]}, got
run(main)
''')
seed('t08', 'C08', [('events.py', '''            self.subscribers.remove((handler, args, kwargs))
''', '''            known = [(h, a) for h, a, k in self.subscribers]
            del self.subscribers[known.index((handler, args))]
''')], 'two subscriptions of one handler that differ only in their keyword arguments, the later one unsubscribed',
'the earlier one is removed', D + '''
def main():
    from pyogp.lib.base.events import Event
    e = Event()
    got = []
    def f(x, k=0):
        got.append(k)
    e.subscribe(f, k=1)
    e.subscribe(f, k=2)
    e.unsubscribe(f, k=2)
    e(0)
    assert got == [1], got
run(main)
''')
seed('t09', 'C09', [('message/message_handler.py', '''        return self.handlers.setdefault(message_name, MessageHandledNotifier(message_name, self.settings))
''', '''        notifier = self.handlers.get(message_name) or MessageHandledNotifier(message_name, self.settings)
        self.handlers[message_name] = notifier
        return notifier
''')], 'a name registered again while its notifier has no subscribers, then subscribed to through the first notifier',
'the two registrations do not share their notifier', D + '''
def main():
    from pyogp.lib.base.message.message_handler import MessageHandler
    h = MessageHandler()
    a = h.register('StartPingCheck')
    b = h.register('StartPingCheck')
    got = []
    a.subscribe(got.append)
    h.handle(message())
    assert len(got) == 1 and a is b
run(main)
''')
seed('t10', 'C10', [('message/data_unpacker.py', '''        self.unpacker[MsgType.MVT_S64]            = ('<','q')
''', '''        self.unpacker[MsgType.MVT_S64]            = ('<','Q')
''')], 'a signed 64-bit field with a negative value', 'it comes back as a huge positive number', D + '''
def main():
    from pyogp.lib.base.message.data_packer import DataPacker
    from pyogp.lib.base.message.data_unpacker import DataUnpacker
    from pyogp.lib.base.message.msgtypes import MsgType
    for v in (0, 1, -1, 2 ** 63 - 1, -2 ** 63):
        b = DataPacker().pack_data(v, MsgType.MVT_S64)
        assert DataUnpacker().unpack_data(b, MsgType.MVT_S64, 0) == v, v
run(main)
''')
seed('t11', 'C11', [('message/udpserializer.py', '''                    elif var_size == 2:
                        block_buffer += self.packer.pack_data(len(data), MsgType.MVT_U16)
''', '''                    elif var_size == 2:
                        # the text and the zero that ends it
                        block_buffer += self.packer.pack_data(isinstance(var_data, unicode) and len(var_data) + 1 or len(data), MsgType.MVT_U16)
''')], 'a text with characters outside ASCII in a variable field with a two-byte length',
'the length counts the characters and not the bytes', D + '''
def main():
    from pyogp.lib.base.message.message import Message, Block
    from pyogp.lib.base.datatypes import UUID
    d, c = dispatcher()
    z = UUID()
    m = Message('ChatFromViewer', Block('AgentData', AgentID=z, SessionID=z), Block('ChatData', Message=u'caf\\xe9', Type=1, Channel=0))
    d.send_message(m, host())
    b = c.sent[0][2]
    n = ord(b[42]) + 256 * ord(b[43])
    assert b[44:44 + n] == 'caf\\xc3\\xa9\\0', repr(b[42:])
run(main)
''')
seed('t12', 'C12', [('message/udpdeserializer.py', '''                    zero_count = zero_count -1
                    while''', '''                    zero_count = min(zero_count, 128) -1
                    while''')], 'a zero-coded datagram with a run of more than 128 zeros',
'the run is cut', D + '''
def main():
    d, c = dispatcher()
    z = d.udp_deserializer
    for n in (1, 127, 128, 129, 255):
        got = z.zero_code_expand('a\\0' + chr(n) + 'b', 4)
        assert got == 'a' + '\\0' * n + 'b', (n, len(got))
run(main)
''')
seed('t13', 'C13', [('message_manager.py', '''            while len(self.outgoing_queue) > 0:                
''', '''            # what has arrived comes first
            while msg_size == 0 and len(self.outgoing_queue) > 0:
''')], 'datagrams that keep arriving, one in each round, while messages wait to be sent',
'nothing is sent for as long as they arrive', D + '''
def main():
    from pyogp.lib.base.message_manager import MessageManager
    from pyogp.lib.base.settings import Settings
    from eventlet import api
    m = MessageManager(host(), settings=Settings(True))
    c = Client()
    m.udp_dispatcher.udp_client = c
    c.inbox = [(host(), ping(1, 0, i)) for i in range(200)]
    rounds = []
    def sleep(n=0):
        rounds.append(len(c.sent))
        if len(rounds) == 3:
            m.enqueue_message(message(5))
        if len(rounds) == 150:
            m._is_running = False
    api.sleep = sleep
    m._is_running = True
    m._udp_dispatcher()
    assert max(rounds[:100]) == 1, max(rounds)
run(main)
''')
seed('t14', 'C14', [('message/template_parser.py', '''            block_num = int(match.group(4))''', '''            block_num = int(match.group(4)[:2])''')],
'a supplied template with a block that comes a hundred times or more', 'the count is cut to two digits', D + '''
def main():
    import tempfile, os, shutil
    from pyogp.lib.base.message.template_dict import TemplateDictionary
    d = tempfile.mkdtemp()
    try:
        p = os.path.join(d, 't.msg')
        f = open(p, 'w')
        f.write('version 2.0\\n{\\n  Many Low 1 NotTrusted Unencoded\\n  {\\n    B Multiple 128\\n    { X U8 }\\n  }\\n}\\n')
        f.close()
        f = open(p)
        t = TemplateDictionary(message_template=f).get_template('Many')
        assert t.get_blocks()[0].number == 128, t.get_blocks()[0].number
        f.close()
    finally:
        shutil.rmtree(d)
run(main)
''')
seed('t17', 'C17', [('event_queue.py', '''                        self.last_id = self.result['id']
                    else:
''', '''                        if self.result.get('events'):
                            self.last_id = self.result['id']
                    else:
''')], 'a response with an id and no events', 'the next poll acknowledges an older response', D + '''
def main():
    from pyogp.lib.base.event_queue import EventQueueClient
    from pyogp.lib.base.settings import Settings
    from eventlet import api
    api.sleep = lambda n=0: None
    class Cap:
        name = 'EventQueueGet'
        public_url = 'x'
        acks = []
        q = [{'id': 1, 'events': [{'message': 'Foo', 'body': {'n': 1}}]}, {'id': 2, 'events': []}, {'id': 3, 'events': []}]
        def POST(self, data):
            self.acks.append(data.get('ack'))
            if len(self.q) == 1:
                e.stopped = True
            return self.q and self.q.pop(0) or None
    e = EventQueueClient(Cap(), Settings(True))
    e._processRegionEventQueue()
    assert Cap.acks == [None, 1, 2, 3], Cap.acks
run(main)
''')
seed('t18', 'C18', [('event_queue.py', '''                            if in_template:
''', '''                            if in_template and not in_template.msg_deprecation:
''')], 'an event named like a template message that the template marks UDPDeprecated (those are the ones sent as events)',
'its blocks are put into one block', D + '''
def main():
    from pyogp.lib.base.event_queue import EventQueueClient
    from pyogp.lib.base.settings import Settings
    e = EventQueueClient(None, Settings(True))
    for name in ('TestMessage', 'CrossedRegion', 'TeleportFinish', 'EnableSimulator', 'ParcelProperties', 'AgentGroupDataUpdate'):
        m = e._decode_eq_result({'id': 1, 'events': [{'message': name, 'body': {'Info': [{'A': 1}]}}]})[0]
        assert m.blocks.keys() == ['Info'] and m.blocks['Info'][0]['A'] == 1, name
run(main)
''')
seed('t19', 'C19', [('caps.py', '''        try:
            response = self.restclient.POST(self.public_url, serialized_payload, headers=headers)
        except HTTPError, e:
''', '''        try:
            try:
                response = self.restclient.POST(self.public_url, serialized_payload, headers=headers)
            except HTTPError, e:
                # too busy, once more
                if e.code != 503:
                    raise
                response = self.restclient.POST(self.public_url, serialized_payload, headers=headers)
        except HTTPError, e:
''')], 'a POST answered with 503', 'the request is made twice', D + '''
def main():
    from pyogp.lib.base.caps import Capability
    from pyogp.lib.base.exc import HTTPError, ResourceError
    from StringIO import StringIO
    class C:
        n = 0
        def POST(self, url, data, headers={}):
            self.n += 1
            raise HTTPError(503, 'Busy', StringIO('busy'))
    c = C()
    try:
        Capability('x', 'http://x', c).POST({})
    except ResourceError, e:
        assert e.code == 503
    assert c.n == 1, c.n
run(main)
''')
seed('t20', 'C20', [('caps.py', '''        for name in names:
            # TODO''', '''        for name in parsed_result:
            # TODO''')], 'a server that grants more names than were asked for', 'the others are returned as well', D + '''
def main():
    from pyogp.lib.base.caps import SeedCapability
    from llbase import llsd
    class R:
        headers = {'Content-Type': 'application/llsd+xml'}
        body = llsd.format_xml({'capabilities': {'A': 'http://x/a', 'B': 'http://x/b'}})
    class C:
        def POST(self, url, data, headers={}):
            return R()
    assert SeedCapability('seed', 'http://seed', C()).get(['A']).keys() == ['A']
run(main)
''')
seed('t21', 'C21', [('datatypes.py', '''            return self.uuid == other.uuid
''', '''            return hash(self.uuid) == hash(other.uuid)
''')], 'two identifiers whose hashes collide (a difference in two places that cancel)', 'they are equal', D + '''
def main():
    from pyogp.lib.base.datatypes import UUID
    a = UUID('00000000-0000-0000-0000-000000000001')
    seen = {}
    # identifiers with the same hash: 32 bits of hash, and 128 of identifier
    import random
    r = random.Random(1)
    hs = {}
    for i in xrange(4):
        for k in range(4):
            n = [0, 0, 0, 0]
            n[k] = 5
            u = UUID('%08x-%04x-%04x-%04x-%04x%08x' % (n[0], n[1] >> 16, n[1] & 65535, n[2] >> 16, n[2] & 65535, n[3]))
            hs.setdefault(str(u), u)
    base = hs.values()
    for i in xrange(300000):
        u = UUID('%032x' % r.getrandbits(128))
        o = seen.get(hash(u))
        if o is not None and str(o) != str(u):
            assert not o == u, (str(o), str(u))
            return
        seen[hash(u)] = u
    for x in base:
        for y in base:
            assert (x == y) == (str(x) == str(y)), (str(x), str(y))
run(main)
''')
seed('t22', 'C22', [('message/message.py', '''                for bl in block:
                    self.add_block(bl)                                
''', '''                if block:
                    self.blocks[block[0].name] = block
''')], 'a message given two lists of blocks of one name, or a block and a list', 'the list replaces what was there', D + '''
def main():
    from pyogp.lib.base.message.message import Message, Block
    m = Message('X', Block('B', A=1), [Block('B', A=2), Block('B', A=3)])
    assert [b['A'] for b in m.blocks['B']] == [1, 2, 3], len(m.blocks['B'])
run(main)
''')
seed('t27', 'C27', [('helpers.py', '''        max_error = delta * OOU16MAX
        if math.fabs(val) < max_error:''', '''        max_error = delta * OOU16MAX
        if 0 < val < max_error:''')], 'a sixteen-bit fraction slightly below zero', 'it does not unpack to zero', D + '''
def main():
    from pyogp.lib.base.helpers import Helpers
    import struct
    for code in range(32700, 32800):
        x = -1.0 + 2.0 * code / 65535.0
        v = Helpers.packed_u16_to_float(struct.pack('<H', code), 0, -1.0, 1.0)
        assert abs(v - x) < 2.0 / 65535 * 1.01
        if abs(x) < 2.0 / 65535 * 0.9:
            assert v == 0.0, (code, v)
run(main)
''')
