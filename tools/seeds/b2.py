D = 'from demolib import *\n'
seed('s10', 'C10', [('message/udpdeserializer.py', '''                        unpacked_data = unpacked_data.rstrip('\\x00')
''', '''                        unpacked_data = unpacked_data.strip('\\x00')
''')], 'a variable-length field, not called Data, that holds binary data beginning with a zero byte',
'decoding loses the leading zero bytes', D + '''
def main():
    from pyogp.lib.base.message.message import Message, Block
    d, c = dispatcher()
    h = host()
    d.message_handler.register('ImprovedInstantMessage')
    from pyogp.lib.base.datatypes import UUID, Vector3
    z = UUID()
    m = Message('ImprovedInstantMessage', Block('AgentData', AgentID=z, SessionID=z),
                Block('MessageBlock', FromGroup=0, ToAgentID=z, ParentEstateID=1, RegionID=z, Position=Vector3(), Offline=0, Dialog=4,
                      ID=z, Timestamp=0, FromAgentName='a', Message='b', BinaryBucket='\\0\\0x\\0y'))
    d.send_message(m, h)
    b = c.sent[0][2]
    r = d.receive_check(h, b, len(b))
    got = r.blocks['MessageBlock'][0]['BinaryBucket']
    assert got.rstrip('\\0') == '\\0\\0x\\0y', repr(got)
run(main)
''')
seed('s11', 'C11', [('message/udpserializer.py', '''            if template_block.number != block_count:
''', '''            if template_block.number > block_count:
''')], 'a message with more blocks of a fixed-count kind than its template says',
'it is encoded instead of refused', D + '''
def main():
    from pyogp.lib.base.message.message import Message, Block
    d, c = dispatcher()
    for n in (3, 4, 5):
        m = Message('TestMessage', Block('TestBlock1', Test1=1), [Block('NeighborBlock', Test0=i, Test1=i, Test2=i) for i in range(n)])
        d.send_message(m, host())
    assert len(c.sent) == 1, [b for i, p, b in c.sent]
run(main)
''')
seed('s12', 'C12', [('message/udpdeserializer.py', '''                    if (decode_pos + var_size) > len(data):
                        print var_size
''', '''                    if (decode_pos + var_size) > msg_size:
                        print var_size
''')], 'a datagram with appended acknowledgements whose last variable-length field claims a few bytes more than its body has',
'a truncated body yields a message', D + '''
def main():
    import struct
    d, c = dispatcher()
    d.message_handler.register('ChatFromViewer')
    # the chat text claims two bytes more than there are, then nothing else of the message is missing but those
    body = '\\xff\\xff\\x00\\x5e'
    d.message_handler.register('GenericMessage')
    body = '\\xff\\xff\\x01\\x05' + '\\0' * 48 + chr(2) + 'm\\0' + '\\0' * 16 + chr(1) + chr(5) + 'abc'
    acks = struct.pack('>II', 1, 2) + chr(2)
    for flags, tail in ((0, ''), (0x10, acks)):
        b = struct.pack('>BIB', flags, 1, 0) + body + tail
        try:
            r = d.receive_check(host(), b, len(b))
        except Exception, e:
            r = None
        assert r is None, r.blocks
run(main)
''')
seed('s13', 'C13', [('message/udpdispatcher.py', '''            self.packets_in += 1

''', '''            self.packets_in += 1

            # appended acknowledgements count whatever the message is
            if ord(msg_buf[0]) & PackFlags.LL_ACK_FLAG:
                count = ord(msg_buf[-1])
                for i in range(min(count, (msg_size - 1) / 4)):
                    circuit.ack_reliable_packet(self.data_unpacker.unpack_data(msg_buf, MsgType.MVT_U32, msg_size - 1 - 4 * (count - i), endian_type=EndianType.BIG))

''')], 'a datagram with appended acknowledgements that is rejected (unknown message number), while a message is outstanding',
'the rejected datagram releases the outstanding message', D + '''
def main():
    import struct
    d, c = dispatcher()
    h = host()
    d.send_reliable(message(), h, 1)
    b = struct.pack('>BIB', 0x10, 1, 0) + '\\xff\\xff\\xfa\\x07abcdef' + struct.pack('>I', 1) + chr(1)
    try:
        d.receive_check(h, b, len(b))
    except Exception, e:
        pass
    assert d.find_circuit(h).unacked_packets.keys() == [1]
run(main)
''')
seed('s14', 'C14', [('message/template_dict.py', '''                parser = MessageTemplateParser(message_template)

            template_list = parser.message_templates
''', '''                parser = None
                name = getattr(message_template, 'name', None)
                if name in TemplateDictionary._parsed:
                    parser = TemplateDictionary._parsed[name]
                else:
                    parser = MessageTemplateParser(message_template)
                    TemplateDictionary._parsed[name] = parser

            template_list = parser.message_templates
'''), ('message/template_dict.py', '''    """the dictionary with all known templates"""
''', '''    """the dictionary with all known templates"""

    # template files parsed before, by name
    _parsed = {}
''')], 'two template files of the same path with different contents supplied one after the other in one process',
'the second one is not read; the first one governs', D + '''
def main():
    import tempfile, os, shutil
    from pyogp.lib.base.message.template_dict import TemplateDictionary
    d = tempfile.mkdtemp()
    try:
        p = os.path.join(d, 't.msg')
        for n in ('First', 'Second'):
            f = open(p, 'w')
            f.write('version 2.0\\n{\\n %s Low 1 NotTrusted Unencoded\\n {\\n  B Single\\n  { X U8 }\\n }\\n}\\n' % n)
            f.close()
            f = open(p)
            t = TemplateDictionary(message_template=f)
            assert t.get_template(n) is not None and t.get_template_by_pair('Low', 1).name == n, n
            f.close()
    finally:
        shutil.rmtree(d)
run(main)
''')
seed('s15', 'C15', [('message/message_dot_xml.py', '''    def validate_udp_msg(self, msg_name):
        """ checks whether a message is allowed over UDP or not """

''', '''    # decisions made before
    _allowed = {}

    def validate_udp_msg(self, msg_name):
        """ checks whether a message is allowed over UDP or not """

        if msg_name not in self._allowed:
            self._allowed[msg_name] = self._validate_udp_msg(msg_name)
        return self._allowed[msg_name]

    def _validate_udp_msg(self, msg_name):

''')], 'two configurations in one process that differ about a message both have been asked about',
'the decision of the first one is applied by the second', D + '''
def main():
    from pyogp.lib.base.message.message_dot_xml import MessageDotXML
    def xml(flavor):
        return ('<?xml version="1.0" ?><llsd><map><key>serverDefaults</key><map/><key>messages</key><map><key>StartPingCheck</key><map><key>flavor</key>'
                '<string>%s</string></map></map><key>capBans</key><map/><key>maxQueuedEvents</key><integer>1</integer><key>messageBans</key><map/></map></llsd>' % flavor)
    sent = []
    for f in ('template', 'llsd'):
        d, c = dispatcher(message_xml=MessageDotXML(message_xml=xml(f)))
        d.send_message(message(), host())
        sent.append(len(c.sent) and c.sent[0][2] is not None and 1 or 0)
    assert sent == [1, 0], sent
run(main)
''')
seed('s16', 'C16', [('message_manager.py', '''            while len(self.outgoing_queue) > 0:                
                (packet, reliable) = self.outgoing_queue.pop(0)
''', '''            # take what is waiting now, in one go
            waiting, self.outgoing_queue = self.outgoing_queue, []
            for packet, reliable in waiting:
''')], 'a message enqueued for immediate sending while the loop is sending the queue (from a handler of outgoing messages)',
'it goes out behind the messages that were waiting, and not ahead of them', D + '''
def main():
    from pyogp.lib.base.message_manager import MessageManager
    from pyogp.lib.base.settings import Settings
    from pyogp.lib.base.message.udpdispatcher import UDPDispatcher
    from eventlet import api
    s = Settings(True)
    s.HANDLE_OUTGOING_PACKETS = True
    m = MessageManager(host(), settings=s)
    c = Client()
    m.udp_dispatcher.udp_client = c
    def out(msg):
        if msg.blocks['PingID'][0]['PingID'] == 1:
            m.enqueue_message(message(9), False, True)
        if msg.blocks['PingID'][0]['PingID'] == 9:
            m.stop_monitors()
    m.message_handler.register('StartPingCheck').subscribe(out)
    for n in (1, 2, 3):
        m.enqueue_message(message(n))
    m._is_running = True
    m._udp_dispatcher()
    got = [ord(b[7]) for i, p, b in c.sent]
    assert got == [1, 9, 2, 3], got
run(main)
''')
seed('s17', 'C17', [('event_queue.py', '''                    if self.result != None: 
                        self.last_id = self.result['id']
                    else:
''', '''                    if self.result != None: 
                        if self.result['id'] == self.last_id:
                            # the same response again
                            continue
                        self.last_id = self.result['id']
                    else:
''')], 'two responses one after the other that carry the same id and different events',
'the events of the second are not delivered', D + '''
def main():
    from pyogp.lib.base.event_queue import EventQueueClient
    from pyogp.lib.base.settings import Settings
    class Cap:
        name = 'EventQueueGet'
        public_url = 'x'
        def __init__(self):
            self.q = [{'id': 5, 'events': [{'message': 'Foo', 'body': {'n': k}}]} for k in (1, 2)]
        def POST(self, data):
            if self.q:
                return self.q.pop(0)
            e.stopped = True
            return {'id': 6, 'events': []}
    e = EventQueueClient(Cap(), Settings(True))
    got = []
    e.message_handler.register('Foo').subscribe(lambda m: got.append(m.blocks['Message_Data'][0]['n']))
    from eventlet import api
    api.sleep = lambda n=0: None
    e._processRegionEventQueue()
    assert got == [1, 2], got
run(main)
''')
seed('s18', 'C18', [('event_queue.py', '''                                        for variable in block_data:

                                            var_data''', '''                                        known = in_template.block_map.get(block_name)

                                        for variable in block_data:

                                            if known and known.variable_map and variable not in known.variable_map:
                                                # not a field of the message
                                                continue

                                            var_data''')], 'an event of a message in the template with a field the template does not have',
'the field is dropped', D + '''
def main():
    from pyogp.lib.base.event_queue import EventQueueClient
    from pyogp.lib.base.settings import Settings
    e = EventQueueClient(None, Settings(True))
    m = e._decode_eq_result({'id': 1, 'events': [{'message': 'TestMessage', 'body': {'TestBlock1': [{'Test1': 1, 'Extra': 'x'}]}}]})[0]
    assert m.blocks['TestBlock1'][0]['Extra'] == 'x'
run(main)
''')
seed('s19', 'C19', [('caps.py', '''            if e.code==404:
                raise ResourceNotFound(self.public_url)
            else:
                raise ResourceError(self.public_url, e.code, e.msg, e.fp.read(), method="POST")

        return self._response_handler(response)

    def POST_CUSTOM''', '''            if e.code in (404, 410):
                # not there, or not any more
                raise ResourceNotFound(self.public_url)
            else:
                raise ResourceError(self.public_url, e.code, e.msg, e.fp.read(), method="POST")

        return self._response_handler(response)

    def POST_CUSTOM''')], 'a POST answered with the status 410',
'the resource-not-found error is raised instead of the resource error with the status', D + '''
def main():
    from pyogp.lib.base.caps import Capability
    from pyogp.lib.base.exc import HTTPError, ResourceError, ResourceNotFound
    from StringIO import StringIO
    class C:
        def POST(self, url, data, headers={}):
            raise HTTPError(410, 'Gone', StringIO('gone'))
    try:
        Capability('x', 'http://x', C()).POST({})
    except ResourceNotFound:
        raise AssertionError('not found')
    except ResourceError, e:
        assert e.code == 410
run(main)
''')
seed('s20', 'C20', [('caps.py', '''        payload = {'capabilities':names} 
        parsed_result = self.POST(payload)['capabilities']

        caps = {}
''', '''        if not hasattr(self, 'granted'):
            self.granted = {}

        payload = {'capabilities':names} 
        parsed_result = self.POST(payload)['capabilities']
        for name in parsed_result:
            # the first address stays
            parsed_result[name] = self.granted.setdefault(name, parsed_result[name])

        caps = {}
''')], 'the same name asked for twice, the server granting another address the second time',
'the capability returned by the second request bears the first address', D + '''
def main():
    from pyogp.lib.base.caps import SeedCapability
    from llbase import llsd
    class R:
        headers = {'Content-Type': 'application/llsd+xml'}
    class C:
        n = 0
        def POST(self, url, data, headers={}):
            self.n += 1
            r = R()
            r.body = llsd.format_xml({'capabilities': {'A': 'http://x/%d' % self.n}})
            return r
    s = SeedCapability('seed', 'http://seed', C())
    got = [s.get(['A'])['A'].public_url for i in range(2)]
    assert got == ['http://x/1', 'http://x/2'], got
run(main)
''')
seed('s21', 'C21', [('datatypes.py', '''        result = uuid.UUID(int = temp)
        return UUID(result.__str__())
''', '''        text = '%02x' % temp
        return UUID((text + '0' * 32)[:32])
''')], 'two identifiers that agree in their first four bits',
'their exclusive-or is shifted', D + '''
def main():
    from pyogp.lib.base.datatypes import UUID
    a = UUID('80000000-0000-0000-0000-000000000001')
    b = UUID('80000000-0000-0000-0000-000000000002')
    assert (a ^ b).get_bytes() == '\\0' * 15 + '\\3', repr((a ^ b).get_bytes())
run(main)
''')
seed('s22', 'C22', [('message/llsd_builder.py', '''        self.has_been_built = False
        var = MsgVariableData(var_name, data)
''', '''        var = MsgVariableData(var_name, data)
'''), ('message/llsd_builder.py', '''        msg = {}
        for block in self.current_msg.blocks:
''', '''        if self.has_been_built:
            # nothing has changed since
            return self.built, len(self.built)

        msg = self.built = {}
        for block in self.current_msg.blocks:
''')], 'a builder that builds, then gets another field for its current block, and builds again',
'the second result lacks the field', D + '''
def main():
    from pyogp.lib.base.message.llsd_builder import LLSDMessageBuilder
    b = LLSDMessageBuilder()
    b.new_message('TestMessage')
    b.next_block('TestBlock1')
    b.add_data('Test1', 1, None)
    b.build_message()
    b.add_data('Test2', 2, None)
    m = b.build_message()[0]
    assert m == {'TestBlock1': [{'Test1': 1, 'Test2': 2}]}, m
run(main)
''')
seed('s24', 'C24', [('message_manager.py', '''        if self.event_queue != None:
            self.event_queue.stop()        
''', '''        if self.event_queue != None and self.event_queue._running:
            self.event_queue.stop()        
''')], 'a stop after the monitors are started and before the event queue coroutine has had its first turn',
'the event queue polls for ever', D + '''
def main():
    from pyogp.lib.base.message_manager import MessageManager
    from pyogp.lib.base.settings import Settings
    from eventlet import api
    class Cap:
        name = 'EventQueueGet'
        public_url = 'x'
        n = 0
        def POST(self, data):
            self.n += 1
            assert self.n < 5, 'still polling'
            if self.n == 4:
                print 'still polling'
                import os
                os._exit(1)
            return {'id': self.n, 'events': []}
    cap = Cap()
    spawned = []
    api.spawn = lambda f, *a: spawned.append((f, a))
    api.sleep = lambda n=0: None
    m = MessageManager(host(), capabilities={'EventQueueGet': cap}, settings=Settings(True))
    m.udp_dispatcher.udp_client = Client()
    m.start_monitors()
    m.stop_monitors()
    for f, a in spawned[:2]:
        f(*a)
    assert cap.n <= 2, cap.n
run(main)
''')
seed('s27', 'C27', [('helpers.py', '''        max_error = delta * OOU8MAX
''', '''        max_error = upper * OOU8MAX
''')], 'an eight-bit fraction between bounds of different magnitude, close to zero',
'it does not unpack to zero although it lies within a step of it (or does although it does not)', D + '''
def main():
    from pyogp.lib.base.helpers import Helpers
    for lower, upper in ((-3.0, 1.0), (-1.0, 1.0), (-8.0, 0.5)):
        for code in range(256):
            x = lower + (upper - lower) * code / 255.0
            step = (upper - lower) / 255.0
            v = Helpers.packed_u8_to_float(chr(code), 0, lower, upper)
            if abs(x) < step * 0.99:
                assert v == 0.0, (lower, upper, code, v)
            else:
                assert abs(v - x) < step * 1.01
run(main)
''')
