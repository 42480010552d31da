From 3654900abba19698549b45f2608b79a8efd04e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:22 +0000
Subject: [PATCH 01/35] fix: report a separate sender host for each received
 datagram

---
 pyogp/lib/base/network/net.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyogp/lib/base/network/net.py b/pyogp/lib/base/network/net.py
index 3a4274b..66295a8 100644
--- a/pyogp/lib/base/network/net.py
+++ b/pyogp/lib/base/network/net.py
@@ -49,8 +49,8 @@ class NetUDPClient(object):
         except:
             return '', 0
         #print self.sender
-        self.sender.ip = addr[0]
-        self.sender.port = addr[1]
+        # a new Host each time: earlier senders are still referenced by circuits
+        self.sender = Host(addr)
         return data, len(data)
 
     def start_udp_connection(self):
-- 
2.43.0


From c96b440c31823c0babb7197e7fa844852fdeb163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:22 +0000
Subject: [PATCH 02/35] fix: do not acknowledge unparsed datagrams that were
 not sent reliably

---
 pyogp/lib/base/message/udpdispatcher.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyogp/lib/base/message/udpdispatcher.py b/pyogp/lib/base/message/udpdispatcher.py
index bb4325d..b0a8311 100644
--- a/pyogp/lib/base/message/udpdispatcher.py
+++ b/pyogp/lib/base/message/udpdispatcher.py
@@ -142,7 +142,8 @@ class UDPDispatcher(object):
                 packet_id = self.data_unpacker.unpack_data(msg_buf, MsgType.MVT_U32, 1, endian_type=EndianType.BIG)
 
                 # queue the ack up
-                circuit.collect_ack(packet_id)
+                if send_flags & PackFlags.LL_RELIABLE_FLAG:
+                    circuit.collect_ack(packet_id)
 
                 return None
 
-- 
2.43.0


From 5cad630b30d5ee6ba2dfad2ff447b494c8953704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:22 +0000
Subject: [PATCH 03/35] fix: write acknowledgements appended to a message, and
 read them in network order

---
 pyogp/lib/base/message/circuit.py         | 7 ++++++-
 pyogp/lib/base/message/udpdeserializer.py | 3 ++-
 pyogp/lib/base/message/udpserializer.py   | 9 ++++++++-
 3 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/pyogp/lib/base/message/circuit.py b/pyogp/lib/base/message/circuit.py
index 8d336f0..66458d8 100644
--- a/pyogp/lib/base/message/circuit.py
+++ b/pyogp/lib/base/message/circuit.py
@@ -72,6 +72,10 @@ class Circuit(object):
 
         packet.packet_id = self.next_packet_id()
 
+        #forget the acks of an earlier send of the same packet
+        packet.acks = []
+        packet.num_acks = 0
+
         #if we have acks that we can add on, add them
         ack_count = len(self.acks)
         if ack_count > 0 and packet.name != "PacketAck":
@@ -79,7 +83,8 @@ class Circuit(object):
 
             #also, sends as many acks as we can onto the end of the packet
             #acks are just the packet_id that we are acking
-            for packet_id in self.acks:
+            #(they are counted in one byte)
+            for packet_id in self.acks[:255]:
                 packet.add_ack(packet_id)
 
         if flag == PackFlags.LL_RELIABLE_FLAG:
diff --git a/pyogp/lib/base/message/udpdeserializer.py b/pyogp/lib/base/message/udpdeserializer.py
index 5ad6c4f..e06c530 100644
--- a/pyogp/lib/base/message/udpdeserializer.py
+++ b/pyogp/lib/base/message/udpdeserializer.py
@@ -240,7 +240,8 @@ class UDPMessageDeserializer(object):
             ack_pos = 0
             while acks > 0:
                 ack_packet_id = self.unpacker.unpack_data(ack_data, MsgType.MVT_U32, \
-                                                          start_index=ack_pos)
+                                                          start_index=ack_pos, \
+                                                          endian_type=EndianType.BIG)
                 ack_pos += sizeof(MsgType.MVT_U32)
                 packet.add_ack(ack_packet_id)
                 acks -= 1
diff --git a/pyogp/lib/base/message/udpserializer.py b/pyogp/lib/base/message/udpserializer.py
index 452bdfe..0e89577 100644
--- a/pyogp/lib/base/message/udpserializer.py
+++ b/pyogp/lib/base/message/udpserializer.py
@@ -21,7 +21,7 @@ import struct
 from logging import getLogger
 
 # pygop
-from msgtypes import MsgType, MsgBlockType, EndianType
+from msgtypes import MsgType, MsgBlockType, EndianType, PackFlags
 from data_packer import DataPacker
 from template_dict import TemplateDictionary
 from pyogp.lib.base import exc
@@ -102,6 +102,13 @@ class UDPMessageSerializer(object):
             # testing a hack to let RegionHandshakeReply get parsed
             msg_buffer += struct.pack(">I", 0)
 
+        #append the acks the packet carries, and their count
+        if self.context.send_flags & PackFlags.LL_ACK_FLAG:
+            for ack_id in self.context.acks:
+                msg_buffer += self.packer.pack_data(ack_id, MsgType.MVT_U32, \
+                                                    endian_type=EndianType.BIG)
+            msg_buffer += self.packer.pack_data(len(self.context.acks), MsgType.MVT_U8)
+
         self.message_buffer = msg_buffer
 
         return msg_buffer
-- 
2.43.0


From 490e6b13be1afdb11ef7301ccd5f714f1f82c8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:22 +0000
Subject: [PATCH 04/35] fix: fire an event to all subscribers when one
 unsubscribes meanwhile

---
 pyogp/lib/base/events.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyogp/lib/base/events.py b/pyogp/lib/base/events.py
index 45f45a9..9970068 100644
--- a/pyogp/lib/base/events.py
+++ b/pyogp/lib/base/events.py
@@ -52,7 +52,7 @@ class Event(object):
 
     def notify(self, args):
 
-        for instance, inner_args, kwargs in self.subscribers:
+        for instance, inner_args, kwargs in self.subscribers[:]:
 
             try:
 
-- 
2.43.0


From f35ed31cabf2ea7ffeb88febe0e167010301b22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:22 +0000
Subject: [PATCH 05/35] fix: Event.clearSubscribers called a list method that
 does not exist

---
 pyogp/lib/base/events.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyogp/lib/base/events.py b/pyogp/lib/base/events.py
index 9970068..647d3d0 100644
--- a/pyogp/lib/base/events.py
+++ b/pyogp/lib/base/events.py
@@ -70,7 +70,7 @@ class Event(object):
 
     def clearSubscribers(self):
 
-        self.subscribers.clear()
+        self.subscribers = []
         return self
 
     def getSubscribers(self):
-- 
2.43.0


From 38184c614b59d70d1c500d3a3461881a6fd1e054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:22 +0000
Subject: [PATCH 06/35] fix: let KeyErrors of message subscribers reach the
 caller

---
 pyogp/lib/base/message/message_handler.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pyogp/lib/base/message/message_handler.py b/pyogp/lib/base/message/message_handler.py
index 4daa4ac..77cb5bd 100644
--- a/pyogp/lib/base/message/message_handler.py
+++ b/pyogp/lib/base/message/message_handler.py
@@ -70,16 +70,16 @@ class MessageHandler(object):
 
             handler = self.handlers[message.name]
 
-            # Handle the message if we have subscribers
-            # Conveniently, this will also enable verbose message logging
-            if len(handler) > 0:
-                if self.settings.LOG_VERBOSE and not (self.settings.UDP_SPAMMERS and self.settings.DISABLE_SPAMMERS): logger.debug('Handling message : %s' % (message.name))
-
-                handler(message)
-
         except KeyError:
             #logger.info("Received an unhandled message: %s" % (message.name))
-            pass
+            return
+
+        # Handle the message if we have subscribers
+        # Conveniently, this will also enable verbose message logging
+        if len(handler) > 0:
+            if self.settings.LOG_VERBOSE and not (self.settings.UDP_SPAMMERS and self.settings.DISABLE_SPAMMERS): logger.debug('Handling message : %s' % (message.name))
+
+            handler(message)
 
 class MessageHandledNotifier(object):
     """ pseudo subclassing the Event class to treat the message like an event """
-- 
2.43.0


From 69d8bf723da6c7a4b4638beb4d4313f9d9cc8eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:22 +0000
Subject: [PATCH 07/35] fix: fixed length fields and ip addresses are packed
 without a terminator

---
 pyogp/lib/base/message/data_packer.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyogp/lib/base/message/data_packer.py b/pyogp/lib/base/message/data_packer.py
index 6897298..87a9a00 100644
--- a/pyogp/lib/base/message/data_packer.py
+++ b/pyogp/lib/base/message/data_packer.py
@@ -29,13 +29,13 @@ from pyogp.lib.base.helpers import Helpers
 class DataPacker(object):
     def __init__(self):
         self.packer = {}
-        self.packer[MsgType.MVT_FIXED]          = ('>',self.__pack_string)  #:DE 23oct2008 added handler for MVT_FIXED
+        self.packer[MsgType.MVT_FIXED]          = ('>',self.__pack_fixed)  #:DE 23oct2008 added handler for MVT_FIXED
         self.packer[MsgType.MVT_VARIABLE]       = ('>',self.__pack_string)
         self.packer[MsgType.MVT_S8]             = ('>','b')
         self.packer[MsgType.MVT_U8]             = ('>','B')
         self.packer[MsgType.MVT_BOOL]           = ('>','B')
         self.packer[MsgType.MVT_LLUUID]         = ('>',self.__pack_uuid)
-        self.packer[MsgType.MVT_IP_ADDR]        = ('>',self.__pack_string)
+        self.packer[MsgType.MVT_IP_ADDR]        = ('>',self.__pack_fixed)
         self.packer[MsgType.MVT_IP_PORT]        = ('>','H')
         self.packer[MsgType.MVT_U16]            = ('<','H')
         self.packer[MsgType.MVT_U32]            = ('<','I')
@@ -93,6 +93,10 @@ class DataPacker(object):
         else:
             return uuid.bytes
 
+    def __pack_fixed(self, endian, data):
+        """Return data of fixed length as it is."""
+        return data
+
     def __pack_string(self, endian, pack_string):
         """Return the string UTF-8 encoded and null terminated."""
         if pack_string == None:
-- 
2.43.0


From 7886ecb1080007199661561789ca324fd722795f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:22 +0000
Subject: [PATCH 08/35] fix: look the message number up behind the extra header

---
 pyogp/lib/base/message/udpdeserializer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyogp/lib/base/message/udpdeserializer.py b/pyogp/lib/base/message/udpdeserializer.py
index e06c530..1169977 100644
--- a/pyogp/lib/base/message/udpdeserializer.py
+++ b/pyogp/lib/base/message/udpdeserializer.py
@@ -153,7 +153,9 @@ class UDPMessageDeserializer(object):
         if PacketLayout.PACKET_ID_LENGTH >= len(message_buffer):
             raise exc.MessageDeserializationError("packet length", "template mismatch")
 
-        header = message_buffer[PacketLayout.PACKET_ID_LENGTH:12]
+        #the message number comes after any extra header data
+        header_pos = PacketLayout.PACKET_ID_LENGTH + ord(message_buffer[PacketLayout.PHL_OFFSET])
+        header = message_buffer[header_pos:header_pos + PacketLayout.PACKET_ID_LENGTH]
         self.current_template = self.__decode_header(header)
         if self.current_template != None:
             return True
-- 
2.43.0


From 00fddb85400bd65d4cf18c14793bfa096b49cbfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:22 +0000
Subject: [PATCH 09/35] fix: do not read appended acknowledgements as message
 data

---
 pyogp/lib/base/message/udpdeserializer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyogp/lib/base/message/udpdeserializer.py b/pyogp/lib/base/message/udpdeserializer.py
index 1169977..7151b3d 100644
--- a/pyogp/lib/base/message/udpdeserializer.py
+++ b/pyogp/lib/base/message/udpdeserializer.py
@@ -247,6 +247,8 @@ class UDPMessageDeserializer(object):
                 ack_pos += sizeof(MsgType.MVT_U32)
                 packet.add_ack(ack_packet_id)
                 acks -= 1
+            #the acks are not part of the message
+            data = data[:msg_size-ack_start]
 
         #RELIABLE - means the message wants to be acked by us
         if packet.send_flags & PackFlags.LL_RELIABLE_FLAG:
-- 
2.43.0


From 3a4054e5f07759373680c46436a54a74b1191421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:22 +0000
Subject: [PATCH 10/35] fix: keep the udp loop running when a datagram, handler
 or message is faulty

---
 pyogp/lib/base/message_manager.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/pyogp/lib/base/message_manager.py b/pyogp/lib/base/message_manager.py
index 2cf8f4b..fe3051a 100644
--- a/pyogp/lib/base/message_manager.py
+++ b/pyogp/lib/base/message_manager.py
@@ -18,6 +18,7 @@ $/LicenseInfo$
 """
 #stdlib
 from logging import getLogger
+import traceback
 
 # pyogp.lib.base
 from pyogp.lib.base.message.udpdispatcher import UDPDispatcher
@@ -172,16 +173,25 @@ class MessageManager(object):
         while self._is_running:
             api.sleep(0)
             msg_buf, msg_size = self.udp_dispatcher.udp_client.receive_packet(self.udp_dispatcher.socket)
-            recv_packet = self.udp_dispatcher.receive_check(self.udp_dispatcher.udp_client.get_sender(),
-                                                            msg_buf, 
-                                                            msg_size)
+            try:
+                recv_packet = self.udp_dispatcher.receive_check(self.udp_dispatcher.udp_client.get_sender(),
+                                                                msg_buf, 
+                                                                msg_size)
+            except Exception, error:
+                traceback.print_exc()
+                logger.warning("Error handling a datagram: %s" % (error))
+
             #self.incoming_queue.append(recv_packet)
             if self.udp_dispatcher.has_unacked():
                 self.udp_dispatcher.process_acks()
 
             while len(self.outgoing_queue) > 0:                
                 (packet, reliable) = self.outgoing_queue.pop(0)
-                self.send_udp_message(packet, reliable)
+                try:
+                    self.send_udp_message(packet, reliable)
+                except Exception, error:
+                    traceback.print_exc()
+                    logger.warning("Error sending a message: %s" % (error))
 
         logger.debug("Stopped the UDP connection for %s" % (self.host))
 
-- 
2.43.0


From 19221ad65867d186c8b0589b2176d6c1c58ed220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:22 +0000
Subject: [PATCH 11/35] fix: do not deliver the previous event queue response
 again after a failed poll

---
 pyogp/lib/base/event_queue.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyogp/lib/base/event_queue.py b/pyogp/lib/base/event_queue.py
index 0c06fe3..d52cd1c 100644
--- a/pyogp/lib/base/event_queue.py
+++ b/pyogp/lib/base/event_queue.py
@@ -194,6 +194,8 @@ class EventQueueClient(object):
                         else:
                             host_string = ''
                         logger.info("Received an error we ought not care about%s: %s" % (host_string, error))
+                        # self.result is still the previous one
+                        continue
 
                     if self.result != None: 
                         self.last_id = self.result['id']
-- 
2.43.0


From eaf05cce31be3297b3fe7d10a91f420625c5d637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:22 +0000
Subject: [PATCH 12/35] fix: stop monitors without event queue, or before the
 event queue has begun

---
 pyogp/lib/base/message_manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyogp/lib/base/message_manager.py b/pyogp/lib/base/message_manager.py
index fe3051a..47b0d95 100644
--- a/pyogp/lib/base/message_manager.py
+++ b/pyogp/lib/base/message_manager.py
@@ -141,7 +141,7 @@ class MessageManager(object):
 
         #stops event_queue
 
-        if self.event_queue._running:
+        if self.event_queue != None:
             self.event_queue.stop()        
 
     def monitor_outgoing_queue(self):
-- 
2.43.0


From e97af0dd447556aaa11a07df2e9601724ceb66f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:22 +0000
Subject: [PATCH 13/35] fix: the event queue is stopped even if its final
 acknowledgement fails

---
 pyogp/lib/base/event_queue.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyogp/lib/base/event_queue.py b/pyogp/lib/base/event_queue.py
index d52cd1c..24c9b64 100644
--- a/pyogp/lib/base/event_queue.py
+++ b/pyogp/lib/base/event_queue.py
@@ -211,7 +211,10 @@ class EventQueueClient(object):
                 # Need to ack the last message received, otherwise it will be
                 # resent if we re-connect to the same queue
                 self.data = {'ack':self.last_id, 'done':True}
-                self.cap.POST(self.data)
+                try:
+                    self.cap.POST(self.data)
+                except Exception, error:
+                    logger.info("Error in the final post to the event queue. Error was: %s" % (error))
 
             self._running = False
 
-- 
2.43.0


From 93901c43cb1fe1fcfaa8562d4998f3d2e295dad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:22 +0000
Subject: [PATCH 14/35] fix: pass a supplied message template file to the
 serializer's dictionary

---
 pyogp/lib/base/message/udpserializer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyogp/lib/base/message/udpserializer.py b/pyogp/lib/base/message/udpserializer.py
index 0e89577..62693c1 100644
--- a/pyogp/lib/base/message/udpserializer.py
+++ b/pyogp/lib/base/message/udpserializer.py
@@ -40,7 +40,7 @@ class UDPMessageSerializer(object):
         """initialize the adapter"""
         self.context = None	# the UDPMessage
 
-        self.template_dict = TemplateDictionary(message_template)
+        self.template_dict = TemplateDictionary(message_template = message_template)
         self.current_template = None
         self.packer = DataPacker()
 
-- 
2.43.0


From 9ee78b59b3b50c14915d1edf0273b31fbd4d706d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:22 +0000
Subject: [PATCH 15/35] fix: apply a supplied message.xml to the messages sent
 and received

---
 pyogp/lib/base/message/udpdispatcher.py | 6 ++++--
 pyogp/lib/base/message_manager.py       | 3 ++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/pyogp/lib/base/message/udpdispatcher.py b/pyogp/lib/base/message/udpdispatcher.py
index b0a8311..b0c4916 100644
--- a/pyogp/lib/base/message/udpdispatcher.py
+++ b/pyogp/lib/base/message/udpdispatcher.py
@@ -100,8 +100,10 @@ class UDPDispatcher(object):
         # set up our parsers
         self.udp_deserializer = UDPMessageDeserializer(self.message_handler, 
                                                         self.settings,
-                                                        message_template = self.message_template)
-        self.udp_serializer = UDPMessageSerializer(message_template = self.message_template)
+                                                        message_template = self.message_template,
+                                                        message_xml = self.message_xml)
+        self.udp_serializer = UDPMessageSerializer(message_template = self.message_template,
+                                                   message_xml = self.message_xml)
 
     def find_circuit(self, host):
         circuit = self.circuit_manager.get_circuit(host)
diff --git a/pyogp/lib/base/message_manager.py b/pyogp/lib/base/message_manager.py
index 47b0d95..fe1e4dd 100644
--- a/pyogp/lib/base/message_manager.py
+++ b/pyogp/lib/base/message_manager.py
@@ -110,7 +110,8 @@ class MessageManager(object):
 
         self.udp_dispatcher = UDPDispatcher(settings = self.settings,
                                             message_handler = self.message_handler,
-                                            message_template = self.message_template)
+                                            message_template = self.message_template,
+                                            message_xml = self.message_xml)
 
         # if start parameter = True, kick off the queue monitors
         if start_monitors:
-- 
2.43.0


From 8e092faddc6be626e4e02d3b067b73aa8b15ce59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:22 +0000
Subject: [PATCH 16/35] fix: inequality and hash of UUIDs agree with equality

---
 pyogp/lib/base/datatypes.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyogp/lib/base/datatypes.py b/pyogp/lib/base/datatypes.py
index bdfff7c..ddaf928 100644
--- a/pyogp/lib/base/datatypes.py
+++ b/pyogp/lib/base/datatypes.py
@@ -240,6 +240,12 @@ class UUID(object):
         else:
             return False
 
+    def __ne__(self, other):
+        return not self == other
+
+    def __hash__(self):
+        return hash(self.uuid)
+
 
     def __xor__(self, arg):
         """ the xor of two UUIDs """
-- 
2.43.0


From 147b5144af4768daf0ce710acba3877d6665c9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:22 +0000
Subject: [PATCH 17/35] fix: send the caller's headers with the GET of a
 capability

---
 pyogp/lib/base/caps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyogp/lib/base/caps.py b/pyogp/lib/base/caps.py
index 0d05b33..b7df45d 100644
--- a/pyogp/lib/base/caps.py
+++ b/pyogp/lib/base/caps.py
@@ -71,7 +71,7 @@ class Capability(object):
         if self.settings.ENABLE_CAPS_LOGGING: logger.debug('%s: GETing %s' %(self.name, self.public_url))
 
         try:
-            response = self.restclient.GET(self.public_url)
+            response = self.restclient.GET(self.public_url, headers=custom_headers)
         except HTTPError, e:
             if e.code==404:
                 raise ResourceNotFound(self.public_url)
-- 
2.43.0


From b1e6caacf8b7e248350983d5384af1124d1b025b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:22 +0000
Subject: [PATCH 18/35] fix: Message.as_llsd called a method that does not
 exist

---
 pyogp/lib/base/message/message.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyogp/lib/base/message/message.py b/pyogp/lib/base/message/message.py
index b9f2529..d546c6f 100644
--- a/pyogp/lib/base/message/message.py
+++ b/pyogp/lib/base/message/message.py
@@ -170,7 +170,7 @@ class Message(MessageBase):
         TypeError: invalid type
         '''
         
-        return llsd.format_xml(self.as_dict())
+        return llsd.format_xml(self.to_dict())
 
     def data(self):
         """ a string representation of a packet """
-- 
2.43.0


From b43c4c26d47834e65524daa6b409f132571e3675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:22 +0000
Subject: [PATCH 19/35] fix: release outstanding messages on PacketAck and on
 acks appended to unhandled messages

---
 pyogp/lib/base/message/circuit.py         | 4 ++++
 pyogp/lib/base/message/udpdeserializer.py | 4 +++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/pyogp/lib/base/message/circuit.py b/pyogp/lib/base/message/circuit.py
index 66458d8..c89107d 100644
--- a/pyogp/lib/base/message/circuit.py
+++ b/pyogp/lib/base/message/circuit.py
@@ -95,6 +95,10 @@ class Circuit(object):
         for ack_packet_id in packet.acks:
             self.ack_reliable_packet(ack_packet_id)
 
+        if packet.name == 'PacketAck':
+            for block in packet.blocks.get('Packets', []):
+                self.ack_reliable_packet(block['ID'])
+
         if packet.reliable == True:
             self.collect_ack(packet.packet_id)
 
diff --git a/pyogp/lib/base/message/udpdeserializer.py b/pyogp/lib/base/message/udpdeserializer.py
index 7151b3d..323678f 100644
--- a/pyogp/lib/base/message/udpdeserializer.py
+++ b/pyogp/lib/base/message/udpdeserializer.py
@@ -121,7 +121,9 @@ class UDPMessageDeserializer(object):
                 return None
 
             # if the packet is being handled, or if have have disabled deferred packet parsing, handle it!
-            if self.message_handler.is_message_handled(self.current_template.name) or not self.settings.ENABLE_DEFERRED_PACKET_PARSING:
+            # packets which ack ours always need to be parsed
+            if self.message_handler.is_message_handled(self.current_template.name) or not self.settings.ENABLE_DEFERRED_PACKET_PARSING \
+               or temp_acks or self.current_template.name == 'PacketAck':
 
                 try:
                     return self.__decode_data(msg_buff)
-- 
2.43.0


From 729f5700cf6faa11c0c2e470523c9f0ecfb5eddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:22 +0000
Subject: [PATCH 20/35] fix: refuse to encode a single block that does not come
 exactly once

---
 pyogp/lib/base/message/udpserializer.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyogp/lib/base/message/udpserializer.py b/pyogp/lib/base/message/udpserializer.py
index 62693c1..db21f14 100644
--- a/pyogp/lib/base/message/udpserializer.py
+++ b/pyogp/lib/base/message/udpserializer.py
@@ -123,6 +123,11 @@ class UDPMessageSerializer(object):
         block_list = message_data.get_block(template_block.name)
         block_count = len(block_list)
 
+        #single blocks come exactly once, and are not counted in the buffer
+        if template_block.block_type == MsgBlockType.MBT_SINGLE:
+            if block_count != 1:
+                raise exc.MessageSerializationError(template_block.name, "block data mismatch")
+
         #multiple block type means there is a static number of these blocks
         #that make up this message, with the number stored in the template
         #don't need to add it to the buffer, because the message handlers that
-- 
2.43.0


From ae007361c9ba4eec3c79ed7193ac1978d15853f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:56 +0000
Subject: [PATCH 21/35] fix: the dictionary form of a message has all of its
 repeated blocks

---
 pyogp/lib/base/message/message.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyogp/lib/base/message/message.py b/pyogp/lib/base/message/message.py
index d546c6f..41be72f 100644
--- a/pyogp/lib/base/message/message.py
+++ b/pyogp/lib/base/message/message.py
@@ -140,10 +140,10 @@ class Message(MessageBase):
                     this_var = _vars.get_variable(avar)
                     new_vars[this_var.name] = this_var.data
  
-            if block in base_repr['body']:
-                base_repr['body'][block].append(new_vars)
-            else: 
-                base_repr['body'][block] = [new_vars]
+                if block in base_repr['body']:
+                    base_repr['body'][block].append(new_vars)
+                else: 
+                    base_repr['body'][block] = [new_vars]
 
         return base_repr
 
-- 
2.43.0


From 049fd80d6b61f6d70306b0af8ed568d9974cf285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:05 +0000
Subject: [PATCH 22/35] fix: ignore comments behind the braces and headers of a
 template file

---
 pyogp/lib/base/message/template_parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyogp/lib/base/message/template_parser.py b/pyogp/lib/base/message/template_parser.py
index 4dd402a..a1ee756 100644
--- a/pyogp/lib/base/message/template_parser.py
+++ b/pyogp/lib/base/message/template_parser.py
@@ -78,6 +78,9 @@ class MessageTemplateParser(object):
             if re.match(comment_re, line):
                 continue
 
+            #comments behind anything else run to the end of the line
+            line = line.split('//', 1)[0]
+
             start = re.match(start_re, line)
             end = re.match(end_re, line)
 
-- 
2.43.0


From 3a942060db0ebec641a8a416ed095b35c649aaec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:52 +0000
Subject: [PATCH 23/35] fix: an error in a handler of outgoing messages no
 longer ends the network loop

---
 pyogp/lib/base/message/udpdispatcher.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyogp/lib/base/message/udpdispatcher.py b/pyogp/lib/base/message/udpdispatcher.py
index b0c4916..37e03b6 100644
--- a/pyogp/lib/base/message/udpdispatcher.py
+++ b/pyogp/lib/base/message/udpdispatcher.py
@@ -200,7 +200,11 @@ class UDPDispatcher(object):
 
         # enable monitoring of outgoing packets
         if self.settings.HANDLE_OUTGOING_PACKETS:
-            self.message_handler.handle(packet)
+            try:
+                self.message_handler.handle(packet)
+            except Exception, error:
+                traceback.print_exc()
+                logger.warning("Error handling an outgoing message: %s" % (error))
 
         #use circuit manager to get the circuit to send on
         circuit = self.find_circuit(host)
-- 
2.43.0


From 017473ff39c42884be1bb7173a24958ebc66cab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:52 +0000
Subject: [PATCH 24/35] fix: an error in a handler no longer loses the events
 after it

---
 pyogp/lib/base/event_queue.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyogp/lib/base/event_queue.py b/pyogp/lib/base/event_queue.py
index 24c9b64..3db1cc4 100644
--- a/pyogp/lib/base/event_queue.py
+++ b/pyogp/lib/base/event_queue.py
@@ -256,7 +256,11 @@ class EventQueueClient(object):
                 parsed_data = self._decode_eq_result(data)
 
                 for packet in parsed_data:
-                    self.message_handler.handle(packet)
+                    try:
+                        self.message_handler.handle(packet)
+                    except Exception, error:
+                        traceback.print_exc()
+                        logger.warning("Error handling an event: %s" % (error))
 
         except Exception, error:
 
-- 
2.43.0


From aee55f2401b727c5f85d5ec470139974e1766ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:01 +0000
Subject: [PATCH 25/35] fix: other entries of an event queue response no longer
 lose its events

---
 pyogp/lib/base/event_queue.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyogp/lib/base/event_queue.py b/pyogp/lib/base/event_queue.py
index 3db1cc4..d741ddc 100644
--- a/pyogp/lib/base/event_queue.py
+++ b/pyogp/lib/base/event_queue.py
@@ -285,9 +285,9 @@ class EventQueueClient(object):
 
                 for i in data:
 
-                    if i == 'id':
+                    if i != 'events':
 
-                        #last_id = data[i]
+                        # the id, or something else that holds no events
                         pass
 
                     else:
-- 
2.43.0


From bc70b6b38431c27825f266ebae8b6938efb5f299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:01 +0000
Subject: [PATCH 26/35] fix: the event queue acknowledges a response with the
 id -1

---
 pyogp/lib/base/event_queue.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyogp/lib/base/event_queue.py b/pyogp/lib/base/event_queue.py
index d741ddc..57dec86 100644
--- a/pyogp/lib/base/event_queue.py
+++ b/pyogp/lib/base/event_queue.py
@@ -89,7 +89,7 @@ class EventQueueClient(object):
 
         self._running = False     # this class controls this value
         self.stopped = False     # client can pause the event queue
-        self.last_id = -1
+        self.last_id = None
 
         # if applicable, initialize data to post to the event queue
         self.data = {}
@@ -176,7 +176,7 @@ class EventQueueClient(object):
                     api.sleep(self.settings.REGION_EVENT_QUEUE_POLL_INTERVAL)
 
                     self.data = {}
-                    if self.last_id != -1:
+                    if self.last_id is not None:
                         self.data = {'ack':self.last_id}
 
                     if self.settings.ENABLE_EQ_LOGGING: 
@@ -200,14 +200,14 @@ class EventQueueClient(object):
                     if self.result != None: 
                         self.last_id = self.result['id']
                     else:
-                        self.last_id = -1
+                        self.last_id = None
 
                     self._parse_result(self.result)
 
                 except Exception, error:
                     logger.warning("Error in a post to the event queue. Error was: %s" % (error))
 
-            if self.last_id != -1:
+            if self.last_id is not None:
                 # Need to ack the last message received, otherwise it will be
                 # resent if we re-connect to the same queue
                 self.data = {'ack':self.last_id, 'done':True}
-- 
2.43.0


From e245197e8b769322599266f07e32a6dadfc6c74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:27 +0000
Subject: [PATCH 27/35] fix: a reply that holds zero or false is returned

---
 pyogp/lib/base/helpers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyogp/lib/base/helpers.py b/pyogp/lib/base/helpers.py
index 518e9df..1368707 100644
--- a/pyogp/lib/base/helpers.py
+++ b/pyogp/lib/base/helpers.py
@@ -266,7 +266,8 @@ class LLSDDeserializer(object):
             r = llsd.parse(data)
         except llsd.LLSDParseError, e:
             raise DeserializationFailed(data, str(e))
-        if r==False:
+        # what an empty reply parses to
+        if r is False and not data.strip():
             raise DeserializationFailed(data, 'result was False')
         return r
 
-- 
2.43.0


From e4ffcc3e072829f5a0e75a216b45da7be98660eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:28 +0000
Subject: [PATCH 28/35] fix: a reply without a content type, or with a space or
 capitals in it, is told apart like any other

---
 pyogp/lib/base/caps.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyogp/lib/base/caps.py b/pyogp/lib/base/caps.py
index b7df45d..2516a30 100644
--- a/pyogp/lib/base/caps.py
+++ b/pyogp/lib/base/caps.py
@@ -79,8 +79,8 @@ class Capability(object):
                 raise ResourceError(self.public_url, e.code, e.msg, e.fp.read(), method="GET")
 
         # now deserialize the data again
-        content_type_charset = response.headers['Content-Type']
-        content_type = content_type_charset.split(";")[0] # remove the charset part
+        content_type_charset = response.headers.get('Content-Type', '')
+        content_type = content_type_charset.split(";")[0].strip().lower() # remove the charset part
 
         # ToDo: write a generic serializer/deserializer
         if (content_type == 'application/llsd+xml'):
@@ -146,8 +146,8 @@ class Capability(object):
     def _response_handler(self, response):
         # now deserialize the data again, we ask for a utility with the content type
         # as the name
-        content_type_charset = response.headers['Content-Type']
-        content_type = content_type_charset.split(";")[0] # remove the charset part
+        content_type_charset = response.headers.get('Content-Type', '')
+        content_type = content_type_charset.split(";")[0].strip().lower() # remove the charset part
 
         pattern = re.compile('<\?xml\sversion="1.0"\s\?><llsd>.*?</llsd>.*')
         # ToDo: write a generic serializer/deserializer
-- 
2.43.0


From ed29ebd95d9fab0059936d0515a25661c34bce8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:44 +0000
Subject: [PATCH 29/35] fix: LLSD labelled as HTML may hold line breaks

---
 pyogp/lib/base/caps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyogp/lib/base/caps.py b/pyogp/lib/base/caps.py
index 2516a30..2d96902 100644
--- a/pyogp/lib/base/caps.py
+++ b/pyogp/lib/base/caps.py
@@ -149,7 +149,7 @@ class Capability(object):
         content_type_charset = response.headers.get('Content-Type', '')
         content_type = content_type_charset.split(";")[0].strip().lower() # remove the charset part
 
-        pattern = re.compile('<\?xml\sversion="1.0"\s\?><llsd>.*?</llsd>.*')
+        pattern = re.compile('<\?xml\sversion="1.0"\s\?><llsd>.*?</llsd>.*', re.DOTALL)
         # ToDo: write a generic serializer/deserializer
         if (content_type == 'application/llsd+xml') or \
                (content_type == 'application/xml') or \
-- 
2.43.0


From ff12b484adf2e9c4f6b57475fd86aba9bc3a9b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:16 +0000
Subject: [PATCH 30/35] fix: a rotation of three numbers no longer takes the
 fourth from the bytes behind it

---
 pyogp/lib/base/datatypes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyogp/lib/base/datatypes.py b/pyogp/lib/base/datatypes.py
index ddaf928..d7629ee 100644
--- a/pyogp/lib/base/datatypes.py
+++ b/pyogp/lib/base/datatypes.py
@@ -145,7 +145,8 @@ class Quaternion(object):
         # moved this to a try:except
         try:
             #logger.debug("X:%s Y:%s Z:%s len(bytes):%s" % (self.X, self.Y, self.Z, len(bytes)))
-            self.W = struct.unpack("<f", bytes[offset+12:offset+16])[0]
+            # a rotation of length 3 ends here, whatever follows it
+            self.W = struct.unpack("<f", bytes[offset+12:offset+4*length])[0]
 
         except:
             # Unpack from vector3 
-- 
2.43.0


From 5376e80ec8ded6607559b761c4727f228021a2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:23 +0000
Subject: [PATCH 31/35] fix: datagrams of more than 10000 bytes are received
 whole

---
 pyogp/lib/base/network/net.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyogp/lib/base/network/net.py b/pyogp/lib/base/network/net.py
index 66295a8..7594ef1 100644
--- a/pyogp/lib/base/network/net.py
+++ b/pyogp/lib/base/network/net.py
@@ -42,7 +42,8 @@ class NetUDPClient(object):
         bytes = sock.sendto(send_buffer, (host.ip, host.port))
 
     def receive_packet(self, sock):
-        buf = 10000
+        # the most a datagram can hold
+        buf = 65536
         try:
             data, addr = sock.recvfrom(buf)
             #print "Received data: " + repr(data)
-- 
2.43.0


From 34c9296a03300cea47047c47443adb86482d4d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:28 +0000
Subject: [PATCH 32/35] fix: logging the contents of capability calls cannot
 make them fail

---
 pyogp/lib/base/caps.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyogp/lib/base/caps.py b/pyogp/lib/base/caps.py
index 2d96902..5fc9f84 100644
--- a/pyogp/lib/base/caps.py
+++ b/pyogp/lib/base/caps.py
@@ -90,15 +90,15 @@ class Capability(object):
 
         data = deserializer.deserialize(response.body)
 
-        if self.settings.LOG_VERBOSE and self.settings.ENABLE_CAPS_LLSD_LOGGING: logger.debug('Received the following llsd from %s: %s' % (self.public_url, response.body.strip()))
-        if self.settings.ENABLE_CAPS_LOGGING: logger.debug('Get of cap %s response is: %s' % (self.public_url, data))        
+        if self.settings.LOG_VERBOSE and self.settings.ENABLE_CAPS_LLSD_LOGGING: logger.debug('Received the following llsd from %s: %r' % (self.public_url, response.body.strip()))
+        if self.settings.ENABLE_CAPS_LOGGING: logger.debug('Get of cap %s response is: %r' % (self.public_url, data))        
 
         return data
 
     def POST(self,payload,custom_headers={}):
         """call this capability, return the parsed result"""
 
-        if self.settings.ENABLE_CAPS_LOGGING: logger.debug('Sending to cap %s the following payload: %s' %(self.public_url, payload))        
+        if self.settings.ENABLE_CAPS_LOGGING: logger.debug('Sending to cap %s the following payload: %r' %(self.public_url, payload))        
 
         # serialize the data
         if (type(payload) is ListType):
@@ -111,7 +111,7 @@ class Capability(object):
         content_type = serializer.content_type
         serialized_payload = serializer.serialize()
 
-        if self.settings.LOG_VERBOSE and self.settings.ENABLE_CAPS_LLSD_LOGGING: logger.debug('Posting the following payload to %s: %s' % (self.public_url, serialized_payload))
+        if self.settings.LOG_VERBOSE and self.settings.ENABLE_CAPS_LLSD_LOGGING: logger.debug('Posting the following payload to %s: %r' % (self.public_url, serialized_payload))
 
         headers = {"Content-type" : content_type}
         headers.update(custom_headers)  # give the user the ability to add headers 
@@ -162,8 +162,8 @@ class Capability(object):
 
         data = deserializer.deserialize(response.body)
 
-        if self.settings.ENABLE_CAPS_LLSD_LOGGING: logger.debug('Received the following llsd from %s: %s' % (self.public_url, response.body.strip()))
-        if self.settings.ENABLE_CAPS_LOGGING: logger.debug('Post to cap %s response is: %s' % (self.public_url, data))        
+        if self.settings.ENABLE_CAPS_LLSD_LOGGING: logger.debug('Received the following llsd from %s: %r' % (self.public_url, response.body.strip()))
+        if self.settings.ENABLE_CAPS_LOGGING: logger.debug('Post to cap %s response is: %r' % (self.public_url, data))        
 
         return data
 
-- 
2.43.0


From ce106c3707224c5cd7882ff597f789538a0e72b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:55 +0000
Subject: [PATCH 33/35] fix: reliable messages sent with retries are resent
 until acknowledged

---
 pyogp/lib/base/message/circuit.py       |  2 ++
 pyogp/lib/base/message/udpdispatcher.py | 30 ++++++++++++++++---------
 2 files changed, 21 insertions(+), 11 deletions(-)

diff --git a/pyogp/lib/base/message/circuit.py b/pyogp/lib/base/message/circuit.py
index c89107d..eb38e81 100644
--- a/pyogp/lib/base/message/circuit.py
+++ b/pyogp/lib/base/message/circuit.py
@@ -59,6 +59,7 @@ class Circuit(object):
         self.unacked_packets     = {} #packets we want acked, can be resent
         self.unack_packet_count  = 0
         self.unack_packet_bytes  = 0
+        self.resend_packets      = {} #(buffer, retries left) of those that can be resent
         self.final_retry_packets = {} #packets we want acked, can't be resent
         self.final_packet_count  = 0
 
@@ -107,6 +108,7 @@ class Circuit(object):
         if packet_id in self.unacked_packets:
             del self.unacked_packets[packet_id]
             self.unack_packet_count -= 1
+            self.resend_packets.pop(packet_id, None)
 
         if packet_id in self.final_retry_packets:
             del self.final_retry_packets[packet_id]
diff --git a/pyogp/lib/base/message/udpdispatcher.py b/pyogp/lib/base/message/udpdispatcher.py
index 37e03b6..5d4c8d5 100644
--- a/pyogp/lib/base/message/udpdispatcher.py
+++ b/pyogp/lib/base/message/udpdispatcher.py
@@ -221,6 +221,10 @@ class UDPDispatcher(object):
         try:
             send_buffer = self.udp_serializer.serialize(packet)
 
+            # the packet may be changed and sent again, what left under its id is kept
+            if reliable == True and retries > 0 and send_buffer != None:
+                circuit.resend_packets[packet.packet_id] = (send_buffer, retries)
+
             if self.settings.ENABLE_UDP_LOGGING:
                 if packet.name in self.settings.UDP_SPAMMERS and self.settings.DISABLE_SPAMMERS:
                     pass
@@ -265,22 +269,26 @@ class UDPDispatcher(object):
         #now_time = get_time_now()
 
         #go through all circuits in the map
-        for circuit in self.circuit_manager.unacked_circuits.values():
+        for circuit in self.circuit_manager.circuit_map.values():
+
+            for packet_id in sorted(circuit.resend_packets.keys()):
 
-            for unacked_packet in circuit.unacked_packets.values():
+                # acked while the others were resent
+                if packet_id not in circuit.resend_packets:
+                    continue
 
-                unacked_packet.retries -= 1
-                #is this correct? should it be serialized or something?
-                #self.reset_send_buffer()
+                send_buffer, retries = circuit.resend_packets.pop(packet_id)
 
-                self.send_buffer = ''
-                self.send_buffer += unacked_packet.buffer
-                self.send_retry(unacked_packet.host, unacked_packet.buffer)
+                # once the retries are used up, we only wait for the ack
+                if retries > 1:
+                    circuit.resend_packets[packet_id] = (send_buffer, retries - 1)
 
-                if unacked_packet.retries <= 0:
+                send_flags = ord(send_buffer[0]) | PackFlags.LL_RESENT_FLAG
 
-                    circuit.final_retry_packets[unacked_packet.packet_id] = unacked_packet
-                    del circuit.unacked_packets[unacked_packet.packet_id]
+                try:
+                    self.udp_client.send_packet(self.socket, chr(send_flags) + send_buffer[1:], circuit.host)
+                except Exception, error:
+                    logger.warning("Error resending a packet: %s" % (error))
 
             #final retries aren't resent, they are just forgotten about. boo
             #for unacked_packet in circuit.final_retry_packets.values():
-- 
2.43.0


From 11e57683d2348cb0643349e01741b22d398d7462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:40 +0000
Subject: [PATCH 34/35] fix: values and block counts too large for their length
 are refused, not encoded wrongly

---
 pyogp/lib/base/message/udpserializer.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyogp/lib/base/message/udpserializer.py b/pyogp/lib/base/message/udpserializer.py
index db21f14..e8b2cfb 100644
--- a/pyogp/lib/base/message/udpserializer.py
+++ b/pyogp/lib/base/message/udpserializer.py
@@ -140,6 +140,9 @@ class UDPMessageSerializer(object):
         #mark how many blocks there are of this type that repeat, stored in
         #the data
         if template_block.block_type == MsgBlockType.MBT_VARIABLE:
+            if block_count > 255:
+                raise exc.MessageSerializationError(template_block.name, "too many blocks")
+
             block_buffer += struct.pack('>B', block_count)
             bytes += 1            
 
@@ -160,6 +163,9 @@ class UDPMessageSerializer(object):
                 #if its a VARIABLE type, we have to write in the size of the data
                 if v.type == MsgType.MVT_VARIABLE:
                     #data_size = template_block.get_variable(variable.name).size
+                    if len(data) >= 1 << (8 * var_size):
+                        raise exc.MessageSerializationError(variable.name, "data too long for its length field")
+
                     if var_size == 1:
                         block_buffer += self.packer.pack_data(len(data), MsgType.MVT_U8)
                         #block_buffer += struct.pack('>B', var_size)
-- 
2.43.0


From 3c9db046e22d06ded92488f7eeef9a8ba1ee0b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:55 +0000
Subject: [PATCH 35/35] fix: a wait whose sleeps fail ends in time

---
 pyogp/lib/base/helpers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyogp/lib/base/helpers.py b/pyogp/lib/base/helpers.py
index 1368707..9d29571 100644
--- a/pyogp/lib/base/helpers.py
+++ b/pyogp/lib/base/helpers.py
@@ -302,10 +302,11 @@ class Wait(object):
 
             try:
                 api.sleep()
-                now = time.time()
             except AssertionError:
                 pass
 
+            now = time.time()
+
         return True
 
     def stop(self):
-- 
2.43.0

