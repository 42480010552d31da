D = 'from demolib import *\n'
seed('w07', 'C07', [('message/udpdeserializer.py', '''        packet = Message(msg_data)
        msg_size = len(data)
''', '''        # most datagrams are looked at and dropped, so make do with one message
        # until somebody has subscribed to it
        if self.message_handler.is_message_handled(msg_data.name):
            self.spare = None
        packet = getattr(self, 'spare', None) or Message(msg_data)
        self.spare = packet
        packet.acks, packet.num_acks, packet.reliable = [], 0, False
        msg_size = len(data)
''')], 'a message that a handler keeps, then one nobody registered for (deferred parsing off)', 'the kept message becomes the later one', D + '''
def main():
    from pyogp.lib.base.message.message_handler import MessageHandler
    from pyogp.lib.base.settings import Settings
    s = Settings()
    s.ENABLE_DEFERRED_PACKET_PARSING = False
    mh = MessageHandler(s)
    d, c = dispatcher(settings=s, message_handler=mh)
    got = []
    mh.register('StartPingCheck').subscribe(got.append)
    b = ping(3, 0, 7)
    d.receive_check(host(), b, len(b))
    b = packet_ack([5], 0, 8)
    d.receive_check(host(), b, len(b))
    b = ping(4, 0, 9)
    d.receive_check(host(), b, len(b))
    assert [(m.name, m.packet_id, m['PingID'][0]['PingID']) for m in got] == [('StartPingCheck', 7, 3), ('StartPingCheck', 9, 4)], got
run(main)
''')
seed('w18', 'C18', [('event_queue.py', '''                            new_message = Message(message['message'])
''', '''                            # of several of the same kind, only the last one stays of interest
                            same = [m for m in messages if m.name == message['message'] and not message['body']]
                            new_message = same and same[-1] or Message(message['message'])
                            if same:
                                new_message.blocks = {}
''')], 'an event without a body behind another of its name in the same response', 'it takes the blocks of the earlier message away', D + '''
def main():
    from pyogp.lib.base.event_queue import EventQueueClient
    from pyogp.lib.base.caps import Capability
    q = EventQueueClient(Capability('EventQueueGet', 'http://127.0.0.1:1/x'))
    def say(*bodies):
        return q._decode_eq_result({'id': 1, 'events': [{'message': 'Foo', 'body': b} for b in bodies]})
    assert [m['Message_Data'][0]['a'] for m in say({'a': 1}, {'a': 2})] == [1, 2]
    ms = say({'a': 1}, {})
    assert len(ms) == 2 and ms[0]['Message_Data'][0]['a'] == 1, ms
run(main)
''')
seed('w19', 'C19', [('caps.py', '''        headers = {"Content-type" : content_type}
        headers.update(custom_headers)  # give the user the ability to add headers 
''', '''        # give the user the ability to add headers
        headers = custom_headers or {}
        headers.setdefault("Content-type", content_type)
''')], 'a caller that uses its headers again, for another kind of call', 'they have gained the content type of the first call', D + '''
def main():
    from pyogp.lib.base.caps import Capability
    from pyogp.lib.base.exc import HTTPError
    from webob import Response
    seen = []
    class Rest(object):
        def GET(self, url, headers={}):
            seen.append(dict(headers))
            return Response(body='<?xml version="1.0" ?><llsd><map/></llsd>', status='200 OK', headerlist=[('Content-Type', 'application/llsd+xml')])
        def POST(self, url, data, headers={}):
            return self.GET(url, headers)
    cap = Capability('x', 'http://127.0.0.1:1/x', Rest())
    mine = {'X-Mine': '1'}
    assert cap.POST({'a': 1}, mine) == {} and cap.GET(mine) == {} and cap.POST([1]) == {} and cap.GET() == {}
    assert [sorted([k.lower() for k in h]) for h in seen] == [['content-type', 'x-mine'], ['x-mine'], ['content-type'], []], seen
    assert mine == {'X-Mine': '1'}, mine
run(main)
''')
seed('w12', 'C12', [('message/udpdeserializer.py', '''                    return self.__decode_data(msg_buff)
''', '''                    # what is resent is the same message again
                    body = msg_buff[5:]
                    if getattr(self, 'last', (None,))[0] != (self.current_template.name, body):
                        self.last = ((self.current_template.name, body), self.__decode_data(msg_buff))
                        return self.last[1]
                    again = self.last[1] and self.__decode_data(msg_buff)
                    if again:
                        again.blocks = self.last[1].blocks
                    return again
''')], 'two datagrams with the same body, and a receiver that changes the first message before the second comes', 'the second one shows the change', D + '''
def main():
    from pyogp.lib.base.message.udpdeserializer import UDPMessageDeserializer
    from pyogp.lib.base.message.message_handler import MessageHandler
    from pyogp.lib.base.settings import Settings
    s = Settings()
    s.ENABLE_DEFERRED_PACKET_PARSING = False
    d = UDPMessageDeserializer(MessageHandler(s), s)
    a = d.deserialize(ping(3, 0, 7))
    assert a['PingID'][0]['PingID'] == 3
    b = d.deserialize(ping(3, 0, 8))
    assert b['PingID'][0]['PingID'] == 3 and b.packet_id == 8
    b['PingID'][0].get_variable('PingID').data = 99
    assert a['PingID'][0]['PingID'] == 3
    c = d.deserialize(ping(3, 0, 9))
    assert c['PingID'][0]['PingID'] == 3 and c.packet_id == 9, c
run(main)
''')
