D = 'from demolib import *\n'
seed('u28', 'C28', [('message/circuit.py', '''        if (host.ip, host.port) in self.circuit_map:
            del self.circuit_map[(host.ip, host.port)]
''', '''        for (ip, port) in self.circuit_map.keys():
            if ip == host.ip and str(port).startswith(str(host.port)):
                del self.circuit_map[(ip, port)]
''')], 'two hosts of one address, the port of one being the beginning of that of the other (1300 and 13001)',
'forgetting one forgets the other', D + '''
def main():
    d, c = dispatcher()
    a, b = host('10.0.0.1', 13001), host('10.0.0.1', 1300)
    d.send_message(message(), a)
    d.send_reliable(message(), a, 0)
    d.send_message(message(), b)
    d.circuit_manager.remove_circuit_data(b)
    assert not d.circuit_manager.is_circuit_alive(b)
    assert d.circuit_manager.is_circuit_alive(a)
    assert d.find_circuit(a).unacked_packets.keys() == [2]
run(main)
''')
seed('v28', 'C28', [('message/circuit.py', '''        if (host.ip, host.port) in self.circuit_map:
            return self.circuit_map[(host.ip, host.port)]

        return None
''', '''        circuit = self.circuit_map.get((host.ip, host.port))
        if circuit is not None and circuit.is_alive:
            return circuit

        return None
'''), ('message/circuit.py', '''        circuit = Circuit(host, packet_in_id)
''', '''        circuit = self.circuit_map.get((host.ip, host.port))
        if circuit is not None:
            circuit.is_alive = True
            return circuit
        circuit = Circuit(host, packet_in_id)
'''), ('message/circuit.py', '''            del self.circuit_map[(host.ip, host.port)]
''', '''            self.circuit_map[(host.ip, host.port)].is_alive = False
''')], 'a host that is forgotten and met again', 'its old circuit comes back, with numbering, outstanding messages and trust', D + '''
def main():
    d, c = dispatcher()
    a = host('10.0.0.1', 13001)
    d.send_reliable(message(), a, 0)
    d.circuit_manager.remove_circuit_data(a)
    assert not d.circuit_manager.is_circuit_alive(a)
    assert d.circuit_manager.get_circuit(a) is None
    d.send_message(message(), a)
    assert d.find_circuit(a).last_packet_out_id == 1
    assert d.find_circuit(a).unacked_packets.keys() == []
run(main)
''')
W = D + '''
import time
now = [1000.0]
class Clock(object):
    def time(self):
        return now[0]
time.time = Clock().time
from eventlet import api
sleeps = []
def sleep(n=0):
    now[0] += 0.5
    assert now[0] < 2000
    for f in sleeps:
        f()
api.sleep = sleep
from pyogp.lib.base.helpers import Wait
'''
seed('u29', 'C29', [('helpers.py', '''        self.duration = int(duration)
''', '''        self.duration = int(duration)
        self.start = time.time()
'''), ('helpers.py', '''        start = now
''', '''        start = self.start
''')], 'a finished wait that is run again', 'it ends at once', W + '''
def main():
    w = Wait(3)
    assert now[0] == 1003.0, now
    now[0] += 50
    t = now[0]
    assert w.run() is True
    assert now[0] == t + 3, now
run(main)
''')
seed('v29', 'C29', [('helpers.py', '''        # let's be nice and enabled a kill switch
        self.enabled = False

        self.run()
''', '''        # let's be nice and enabled a kill switch
        self.enabled = True

        self.run()
'''), ('helpers.py', '''        start = now
        self.enabled = True
''', '''        start = now
''')], 'a wait that was stopped and is run again', 'it does not wait', W + '''
def main():
    w = Wait(1)
    sleeps.append(w.stop)
    t = now[0]
    w.duration = 10
    assert w.run() is True and now[0] == t + 0.5
    del sleeps[:]
    t = now[0]
    assert w.run() is True and now[0] == t + 10
run(main)
''')
seed('u30', 'C30', [('helpers.py', '''                           (data >> 24) % 256)
''', '''                           (data >> 24) & 127)
''')], 'an integer whose highest bit is set', 'its last byte loses the bit', D + '''
def main():
    from pyogp.lib.base.helpers import Helpers
    import struct
    for n in (0, 1, 255, 65536, 2 ** 30, 2 ** 31, 2 ** 32 - 1, -1):
        assert Helpers().int_to_bytes(n) == struct.pack('<I', n % 2 ** 32), n
run(main)
''')
seed('v30', 'C30', [('helpers.py', '''            ascii_string = unhexlify(data)
''', '''            ascii_string = unhexlify(data.strip()[:len(data) // 2 * 2])
''')], 'hexadecimal text of odd length', 'its last digit is dropped instead of refusing it', D + '''
def main():
    from pyogp.lib.base.helpers import Helpers
    from pyogp.lib.base.exc import DataParsingError
    assert Helpers().hex_to_ascii('00ff41') == '\\x00\\xffA'
    for bad in ('0', '00f', 'zz', '0g'):
        try:
            Helpers().hex_to_ascii(bad)
        except DataParsingError:
            continue
        assert 0, bad
run(main)
''')
