D = 'from demolib import *\n'
seed('u31', 'C31', [('message/data_unpacker.py', '''            if endian_type != EndianType.NONE:
                endian = endian_type
''', '''            if endian_type != EndianType.NONE and endian_type != endian:
                endian = {'<': '>', '>': '<'}[endian]
''')], 'the network byte order asked for when reading a port', 'the port is read little-endian', D + '''
def main():
    from pyogp.lib.base.message.data_unpacker import DataUnpacker
    from pyogp.lib.base.message.msgtypes import MsgType, EndianType
    u = DataUnpacker()
    assert u.unpack_data('\\x01\\x02', MsgType.MVT_IP_PORT) == 258
    assert u.unpack_data('\\x01\\x02', MsgType.MVT_IP_PORT, endian_type=EndianType.LITTLE) == 513
    assert u.unpack_data('\\x01\\x02', MsgType.MVT_U16, endian_type=EndianType.NETWORK) == 258
    assert u.unpack_data('\\x01\\x02', MsgType.MVT_IP_PORT, endian_type=EndianType.NETWORK) == 258
run(main)
''')
seed('v31', 'C31', [('message/data_packer.py', '''        self.packer[MsgType.MVT_S64]            = ('<','q')
''', '''        self.packer[MsgType.MVT_S64]            = ('<',self.__pack_long)
'''), ('message/data_packer.py', '''    def __pack_vector3(self, endian, vec):        
''', '''    def __pack_long(self, endian, number):
        """ the two halves of a signed number, the high one with its sign """
        halves = [struct.pack(endian + 'I', number % 0x100000000),
                  struct.pack(endian + 'i', int(number / 4294967296.0))]
        if endian != '<':
            halves.reverse()
        return halves[0] + halves[1]

    def __pack_vector3(self, endian, vec):        
''')], 'a negative 64-bit number that is no multiple of 2^32', 'its upper half is rounded towards zero', D + '''
def main():
    from pyogp.lib.base.message.data_packer import DataPacker
    from pyogp.lib.base.message.msgtypes import MsgType, EndianType
    import struct
    for n in (0, 1, 2 ** 40 + 5, -1, -2 ** 32, -2 ** 63, -2 ** 40 - 3):
        assert DataPacker().pack_data(n, MsgType.MVT_S64) == struct.pack('<q', n), n
        assert DataPacker().pack_data(n, MsgType.MVT_S64, EndianType.BIG) == struct.pack('>q', n), n
run(main)
''')
