D = 'from demolib import *\n'
seed('s01', 'C01', [('message/circuit.py', '''        for ack_packet_id in packet.acks:
            self.ack_reliable_packet(ack_packet_id)
''', '''        for ack_packet_id in packet.acks:
            self.ack_reliable_packet(ack_packet_id)
            # a host that acknowledges a number has seen it
            self.last_packet_out_id = max(self.last_packet_out_id, ack_packet_id)
''')], 'a datagram with an appended acknowledgement of a number that was never sent to that host, followed by a send',
'the next datagram to that host skips numbers: numbering is influenced by what is received', D + '''
def main():
    d, c = dispatcher()
    h = host()
    d.message_handler.register('StartPingCheck')
    d.send_message(message(), h)
    d.receive_check(h, ping(1, 0x10, 1, [70]), len(ping(1, 0x10, 1, [70])))
    d.send_message(message(), h)
    seqs = [ord(b[4]) for i, p, b in c.sent]
    assert seqs == [1, 2], seqs
run(main)
''')
seed('s02', 'C02', [('message/circuit.py', '''            del self.unacked_packets[packet_id]
            self.unack_packet_count -= 1
''', '''            del self.unacked_packets[packet_id]
        self.unack_packet_count = max(self.unack_packet_count - 1, 0)
''')], 'an acknowledgement of a number that is not outstanding (unknown or acknowledged before) while another message is outstanding',
'the outstanding count no longer equals the number of outstanding messages', D + '''
def main():
    d, c = dispatcher()
    h = host()
    d.send_reliable(message(), h, 3)
    d.send_reliable(message(), h, 3)
    for k in (1, 2):
        b = packet_ack([1], 0, k)
        d.receive_check(h, b, len(b))
    circ = d.find_circuit(h)
    assert sorted(circ.unacked_packets) == [2], circ.unacked_packets
    assert circ.unack_packet_count == 1, circ.unack_packet_count
run(main)
''')
seed('s03', 'C03', [('message/udpdispatcher.py', '''            if acks_this_packet > 0:

                self.send_message(msg, circuit.host)

            circuit.acks = []
''', '''            if acks_this_packet > 0:

                self.send_message(msg, circuit.host)
                circuit.acks = []
''')], 'a flush with exactly 251 (or a multiple) acknowledgements pending for a host',
'the acknowledgements stay pending after the flush and are sent again at every further one', D + '''
def main():
    d, c = dispatcher()
    h = host()
    for k in range(251):
        b = ping(1, 0x40, k + 1)
        d.receive_check(h, b, len(b))
    d.process_acks()
    n = len(c.sent)
    assert sorted(sum([body_acks(b) for i, p, b in c.sent], [])) == range(1, 252)
    assert not d.has_unacked()
    d.process_acks()
    assert len(c.sent) == n, len(c.sent)
run(main)
''')
seed('s04', 'C04', [('message/udpserializer.py', '''        self.context = context

        self.set_current_template()
''', '''        self.context = context
        if self.context.send_flags & PackFlags.LL_RESENT_FLAG:
            # what goes out again has its acknowledgements already
            self.context.acks = []

        self.set_current_template()
'''), ('message/circuit.py', '''        packet.retries = retries

        packet.packet_id = self.next_packet_id()
''', '''        packet.retries = retries
        if packet.packet_id in self.unacked_packets and self.unacked_packets[packet.packet_id] is packet:
            # the application sends a message that is still outstanding
            packet.send_flags |= PackFlags.LL_RESENT_FLAG

        packet.packet_id = self.next_packet_id()
''')], 'the application sends a message object again that is still outstanding, while acknowledgements are pending for the host',
'the acknowledgement flag is set but the trailer holds no acknowledgements', D + '''
def main():
    d, c = dispatcher()
    h = host()
    m = message()
    d.send_reliable(m, h, 3)
    b = ping(1, 0x40, 7)
    d.receive_check(h, b, len(b))
    d.send_reliable(m, h, 3)
    assert appended(c.sent[-1][2]) == [7], repr(c.sent[-1][2])
run(main)
''')
seed('s05', 'C05', [('message/udpdispatcher.py', """            if circuit.is_trusted and \\
                recv_packet.trusted == False:
""", """            # what was sent again has been looked at before
            if circuit.is_trusted and not recv_packet.send_flags & PackFlags.LL_RESENT_FLAG and \\
                recv_packet.trusted == False:
""")], 'an untrusted message flagged as resent arrives on a trusted circuit',
'it is delivered to handlers and returned', D + """
def main():
    d, c = dispatcher()
    h = host()
    got = []
    d.message_handler.register('StartPingCheck').subscribe(got.append)
    d.send_reliable(message(), h, 3)
    d.find_circuit(h).is_trusted = True
    for f in (0, 0x20, 0x60):
        b = ping(1, f, 7)
        r = d.receive_check(h, b, len(b))
        assert r is None and got == [], (f, r, got)
run(main)
""")
seed('s06', 'C06', [('message/circuit.py', '''        if packet_id in self.unacked_packets:
            del self.unacked_packets[packet_id]
            self.unack_packet_count -= 1
''', '''        # a host acknowledges in order: earlier ones have arrived as well
        for earlier in [i for i in self.unacked_packets if i <= packet_id and packet_id in self.unacked_packets]:
            del self.unacked_packets[earlier]
            self.unack_packet_count -= 1
''')], 'the network drops a reliable message and delivers a later one, whose acknowledgement then arrives',
'a message that was never received ceases to be outstanding', D + '''
def main():
    a, ca = dispatcher()
    b, cb = dispatcher()
    ha, hb = host('10.0.0.1', 1), host('10.0.0.2', 2)
    a.send_reliable(message(1), hb, 3)     # dropped
    a.send_reliable(message(2), hb, 3)
    b.receive_check(ha, ca.sent[1][2], len(ca.sent[1][2]))
    b.process_acks()
    for i, p, d in cb.sent:
        a.receive_check(hb, d, len(d))
    out = sorted(a.find_circuit(hb).unacked_packets)
    assert out == [1], out
run(main)
''')
seed('s07', 'C07', [('message/udpdispatcher.py', '''            if self.settings.HANDLE_PACKETS:
                self.message_handler.handle(recv_packet)

        return recv_packet
''', '''            # the same packet once more, nothing new for the handlers
            repeated = recv_packet.packet_id == self.receive_packet_id
            self.receive_packet_id = recv_packet.packet_id

            if self.settings.HANDLE_PACKETS and not repeated:
                self.message_handler.handle(recv_packet)

        return recv_packet
''')], 'two hosts whose datagrams carry the same sequence number arrive one right after the other',
'the second host\'s message is not delivered to the subscribers', D + '''
def main():
    d, c = dispatcher()
    got = []
    d.message_handler.register('StartPingCheck').subscribe(lambda m: got.append(m.blocks['PingID'][0].vars['PingID'].data))
    for ip, n in (('1.1.1.1', 5), ('2.2.2.2', 6)):
        b = ping(n, 0, 9)
        d.receive_check(host(ip), b, len(b))
    assert got == [5, 6], got
run(main)
''')
seed('s08', 'C08', [('events.py', '''            self.subscribers.remove((handler, args, kwargs))
''', '''            found = [s for s in self.subscribers if s == (handler, args, kwargs)]
            if not found:
                raise ValueError("not subscribed")
            self.subscribers[:] = [s for s in self.subscribers if s is not found[0]]
            for s in found[1:]:
                # keep the other subscriptions of the handler behind the rest
                self.subscribers.remove(s)
                self.subscribers.append(s)
''')], 'a handler subscribed twice with the same arguments, another between or behind them, and one of the two unsubscribed',
'the order of calls is no longer the order of subscription', D + '''
def main():
    from pyogp.lib.base.events import Event
    e = Event()
    got = []
    def a(v): got.append('a')
    def b(v): got.append('b')
    e.subscribe(a); e.subscribe(a); e.subscribe(b)
    e.unsubscribe(a)
    e(1)
    assert got == ['a', 'b'], got
    assert len(e) == 2
run(main)
''')
seed('s09', 'C09', [('message/message_handler.py', '''            handler = self.handlers[message.name]

        except KeyError:
            #logger.info("Received an unhandled message: %s" % (message.name))
            return

        # Handle the message if we have subscribers
        # Conveniently, this will also enable verbose message logging
        if len(handler) > 0:
            if self.settings.LOG_VERBOSE and not (self.settings.UDP_SPAMMERS and self.settings.DISABLE_SPAMMERS): logger.debug('Handling message : %s' % (message.name))

            handler(message)
''', '''            handler = self.handlers[message.name]

            # Handle the message if we have subscribers
            # Conveniently, this will also enable verbose message logging
            if len(handler) > 0:
                if self.settings.LOG_VERBOSE and not (self.settings.UDP_SPAMMERS and self.settings.DISABLE_SPAMMERS): logger.debug('Handling message : %s' % (message.name))

                handler(message)

        except KeyError:
            if message.name in self.handlers and len(self.handlers[message.name]) > 1:
                raise
            #logger.info("Received an unhandled message: %s" % (message.name))
            return
''')], 'a subscriber that raises a KeyError and is the only subscriber of its name',
'the error is swallowed as if the name had no handler', D + '''
def main():
    from pyogp.lib.base.message.message_handler import MessageHandler
    h = MessageHandler()
    def bad(m): raise KeyError('x')
    h.register('TestMessage').subscribe(bad)
    class M: name = 'TestMessage'
    try:
        h.handle(M())
    except KeyError:
        return
    raise AssertionError('the KeyError was swallowed')
run(main)
''')
