From 8bf791e9de30a1dd2dead2f79c8732d1c7a3a3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:14 +0000
Subject: [PATCH 01/48] fix: schedule the next exchange with its own duration
 and reply start

---
 pysim/models/rfid/handlers.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pysim/models/rfid/handlers.py b/pysim/models/rfid/handlers.py
index 9a71e4a..f5551c9 100755
--- a/pysim/models/rfid/handlers.py
+++ b/pysim/models/rfid/handlers.py
@@ -100,7 +100,8 @@ def turn_reader_on(kernel, reader):
         transaction.duration, finish_transaction, (transaction, ))
     if transaction.reply_start_time is not None:
         dt = transaction.reply_start_time - kernel.time
-        kernel.schedule(dt, update_power_at_response_start, (transaction, ))
+        transaction.response_start_event_id = kernel.schedule(
+            dt, update_power_at_response_start, (transaction, ))
 
     # Scheduling turning off
     power_mode = reader.power_control_mode
@@ -306,13 +307,15 @@ def finish_transaction(kernel, transaction):
         cmd_frame = _no_tag_response(kernel, ctx, reader)
 
     # Processing new command (reader frame)
-    ctx.transaction = _build_transaction(kernel, ctx.reader, cmd_frame)
+    transaction = _build_transaction(kernel, ctx.reader, cmd_frame)
+    ctx.transaction = transaction
     ctx.transaction.timeout_event_id = kernel.schedule(
-        transaction.duration, finish_transaction, (ctx.transaction, )
+        transaction.duration, finish_transaction, (transaction, )
     )
     if transaction.reply_start_time is not None:
         dt = transaction.reply_start_time - kernel.time
-        kernel.schedule(dt, update_power_at_response_start, (transaction, ))
+        transaction.response_start_event_id = kernel.schedule(
+            dt, update_power_at_response_start, (transaction, ))
 
 
 def switch_reader_antenna(kernel, reader):
-- 
2.43.0


From 85fff607fe828abeef4db2d3a6b412f1fa8e32ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:14 +0000
Subject: [PATCH 02/48] fix: a reply starts T1 after the end of the command,
 not after its start

---
 pysim/models/rfid/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysim/models/rfid/objects.py b/pysim/models/rfid/objects.py
index 59cdb1f..445dfa5 100755
--- a/pysim/models/rfid/objects.py
+++ b/pysim/models/rfid/objects.py
@@ -1578,7 +1578,7 @@ class Transaction():
             t4 = std.link_t4(reader.rtcal)
             exchange_duration = (self._command_duration + t1 +
                                  self._reply_duration + t2)
-            self._reply_start_time = time + t1
+            self._reply_start_time = self._command_end_time + t1
             self._reply_end_time = (
                 self._reply_start_time + self._reply_duration
             )
-- 
2.43.0


From 46d0fd4c5dd4a7b745b5210be4f7c1867338dfc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:14 +0000
Subject: [PATCH 03/48] fix: only Query is sent with the full preamble, other
 commands with frame-sync

---
 pysim/models/rfid/objects.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pysim/models/rfid/objects.py b/pysim/models/rfid/objects.py
index 445dfa5..8f6a6ce 100755
--- a/pysim/models/rfid/objects.py
+++ b/pysim/models/rfid/objects.py
@@ -291,7 +291,7 @@ class _ReaderQREP(_ReaderState):
     def enter(self, reader):
         reader.last_rn = None
         cmd = std.QueryRep(reader.session)
-        return std.ReaderFrame(reader.preamble, cmd)
+        return std.ReaderFrame(reader.sync, cmd)
 
     def handle_turn_on(self, reader): return None
 
@@ -336,7 +336,7 @@ class _ReaderAdjust(_ReaderState):
     def enter(self, reader):
         reader.last_rn = None
         cmd = std.QueryAdjust(reader.session, reader.updn)
-        return std.ReaderFrame(reader.preamble, cmd)
+        return std.ReaderFrame(reader.sync, cmd)
 
     def handle_turn_on(self, reader):
         return None  # Reader is already ON
@@ -380,7 +380,7 @@ class _ReaderACK(_ReaderState):
 
     def enter(self, reader):
         cmd = std.Ack(reader.last_rn)
-        return std.ReaderFrame(reader.preamble, cmd)
+        return std.ReaderFrame(reader.sync, cmd)
 
     def handle_turn_on(self, reader):
         return None
@@ -426,7 +426,7 @@ class _ReaderREQRN(_ReaderState):
 
     def enter(self, reader):
         cmd = std.ReqRN(reader.last_rn)
-        return std.ReaderFrame(reader.preamble, cmd)
+        return std.ReaderFrame(reader.sync, cmd)
 
     def handle_turn_on(self, reader): return None
 
@@ -470,7 +470,7 @@ class _ReaderREAD(_ReaderState):
     def enter(self, reader):
         cmd = std.Read(std.MemoryBank.TID, 0x00, reader.read_tid_words_num,
                        reader.last_rn)
-        return std.ReaderFrame(reader.preamble, cmd)
+        return std.ReaderFrame(reader.sync, cmd)
 
     def handle_turn_on(self, reader): return None
 
-- 
2.43.0


From 96390828f53d8cf8db81f9c316d40db2a5ee900b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:14 +0000
Subject: [PATCH 04/48] fix: a tag keeps Q within 0..15 when it hears
 QueryAdjust

---
 pysim/models/rfid/objects.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pysim/models/rfid/objects.py b/pysim/models/rfid/objects.py
index 8f6a6ce..67850c1 100755
--- a/pysim/models/rfid/objects.py
+++ b/pysim/models/rfid/objects.py
@@ -1203,11 +1203,11 @@ class Tag:
             )
             self._set_state(Tag.State.ARBITRATE)
             updn = qadjust.updn
-            if self.q + updn >= 0 or self.q + updn <= 15:
+            if 0 <= self.q + updn <= 15:
                 self.q = self.q + updn
-                self._slot_counter = np.random.randint(0, pow(2, self.q))
-                stat = self.kernel.context.statistics
-                stat.get_tag_record(self).num_qadjust_attained += 1
+            self._slot_counter = np.random.randint(0, pow(2, self.q))
+            stat = self.kernel.context.statistics
+            stat.get_tag_record(self).num_qadjust_attained += 1
             if self._slot_counter == 0:
                 self._set_state(Tag.State.REPLY)
                 self._rn = np.random.randint(0, 0x10000)
-- 
2.43.0


From c4390eb7caeaac43d553a3d8dce553c6e4f3c251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:14 +0000
Subject: [PATCH 05/48] fix: a tag honours the word pointer of Read and
 survives an empty bank

---
 pysim/models/rfid/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysim/models/rfid/objects.py b/pysim/models/rfid/objects.py
index 67850c1..f05680e 100755
--- a/pysim/models/rfid/objects.py
+++ b/pysim/models/rfid/objects.py
@@ -1262,7 +1262,7 @@ class Tag:
         if self.state is not Tag.State.SECURED:
             return None
         if read.rn == self.rn:
-            content = self.bank_data(read.bank)
+            content = (self.bank_data(read.bank) or '')[read.word_ptr * 4:]
             # Извлекаем из банка ровно столько данных, сколько запрошено.
             # В команде указывается число слов (по два байта), а в content
             # лежит hex-строка, в которой каждый байт кодируется двумя
-- 
2.43.0


From 9129fdb27681903280acd7d85aca10e044a90ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:14 +0000
Subject: [PATCH 06/48] fix: the round that switches the target counts as its
 first round

---
 pysim/models/rfid/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysim/models/rfid/objects.py b/pysim/models/rfid/objects.py
index f05680e..7bec3fb 100755
--- a/pysim/models/rfid/objects.py
+++ b/pysim/models/rfid/objects.py
@@ -240,7 +240,7 @@ class _ReaderQUERY(_ReaderState):
             if reader.num_rounds_before_target_switch <= 0:
                 reader.target = reader.target.invert()
                 reader.num_rounds_before_target_switch = \
-                    reader.rounds_per_target
+                    reader.rounds_per_target - 1
             else:
                 reader.num_rounds_before_target_switch -= 1
 
-- 
2.43.0


From 24c20b659e73b68a3fde320e6032c023b0539bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:14 +0000
Subject: [PATCH 07/48] fix: a Query of another session does not invert the
 flag of the active one

---
 pysim/models/rfid/objects.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pysim/models/rfid/objects.py b/pysim/models/rfid/objects.py
index 7bec3fb..ca4ba16 100755
--- a/pysim/models/rfid/objects.py
+++ b/pysim/models/rfid/objects.py
@@ -1126,8 +1126,9 @@ class Tag:
         if self.state is Tag.State.OFF:
             return None
 
-        if self.state not in {Tag.State.READY, Tag.State.ARBITRATE,
-                              Tag.State.REPLY}:
+        if (self._active_session is command.session and
+                self.state not in {Tag.State.READY, Tag.State.ARBITRATE,
+                                   Tag.State.REPLY}):
             flag = self.sessions[self._active_session]
             self.sessions[self._active_session] = flag.invert()
 
-- 
2.43.0


From 435569ee2b9a4ef5e1c33dd50b2d751a200b58ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:50 +0000
Subject: [PATCH 08/48] fix: the reply timeout of QueryAdjust belongs to the
 command that was sent

---
 pysim/models/rfid/handlers.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/pysim/models/rfid/handlers.py b/pysim/models/rfid/handlers.py
index f5551c9..581b692 100755
--- a/pysim/models/rfid/handlers.py
+++ b/pysim/models/rfid/handlers.py
@@ -202,7 +202,6 @@ def _no_tag_response(kernel, ctx, reader):
                 # Отправить команду QueryAdjust
                 reader.updn = -1
                 cmd_frame = reader.set_state(Reader.State.QAdjust)
-                reader.updn = 0
     if cmd_frame is None:
         cmd_frame = ctx.reader.timeout()
     return cmd_frame
@@ -276,7 +275,6 @@ def _multiple_tag_response(kernel, ctx, reader, transaction):
                 # Отправить команду QueryAdjust
                 reader.updn = 1
                 cmd_frame = reader.set_state(Reader.State.QAdjust)
-                reader.updn = 0
     if cmd_frame is None:
         cmd_frame = ctx.reader.timeout()
     return cmd_frame
-- 
2.43.0


From 9bfdc8a2b425215f485746ad3c6443fcc5b6fe8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:50 +0000
Subject: [PATCH 09/48] fix: tags of one generator get distinct EPCs and TIDs

---
 pysim/models/rfid/objects.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pysim/models/rfid/objects.py b/pysim/models/rfid/objects.py
index ca4ba16..77eec93 100755
--- a/pysim/models/rfid/objects.py
+++ b/pysim/models/rfid/objects.py
@@ -1347,6 +1347,8 @@ class Generator:
     tid_prefix = 'AAAA'
     max_tags_generated = -1
     num_tags_generated = 0
+    _epc_suffix = None
+    _tid_suffix = None
 
     # Antenna and power parameters
     antenna_gain = 2.0  # dBm
@@ -1381,8 +1383,10 @@ class Generator:
         tid_suffix_bitlen = (
             self.tid_bitlen - hex_string_bitlen(self.tid_prefix)
         )
-        self._epc_suffix = '0' * int(np.ceil(epc_suffix_bitlen / 4))
-        self._tid_suffix = '0' * int(np.ceil(tid_suffix_bitlen / 4))
+        if self._epc_suffix is None:
+            self._epc_suffix = '0' * int(np.ceil(epc_suffix_bitlen / 4))
+        if self._tid_suffix is None:
+            self._tid_suffix = '0' * int(np.ceil(tid_suffix_bitlen / 4))
 
         tag_id = next(model.next_tag_id)
         tag = Tag(tag_id)
-- 
2.43.0


From 5de6b3bd470d83035b91a0335245d603fb0bdc8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:50 +0000
Subject: [PATCH 10/48] fix: a tag that leaves during its own exchange no
 longer breaks the run

---
 pysim/models/rfid/handlers.py | 14 ++++++++------
 pysim/models/rfid/objects.py  |  1 +
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/pysim/models/rfid/handlers.py b/pysim/models/rfid/handlers.py
index 581b692..08e4451 100755
--- a/pysim/models/rfid/handlers.py
+++ b/pysim/models/rfid/handlers.py
@@ -212,9 +212,12 @@ def _one_tag_response(kernel, transaction, ctx, reader, tag, frame, snr, ber):
     Обработка единственного ответа от метки после
     завершения транзакции считывателя
     '''
-    if isinstance(frame.reply, std.AckReply):
+    # Метка могла покинуть модель во время обмена, тогда записи о ней уже нет
+    tag_record = ctx.statistics.get_tag_record(tag)
+
+    if isinstance(frame.reply, std.AckReply) and tag_record is not None:
         tag_read_record = (
-            ctx.statistics.get_tag_record(tag)
+            tag_record
             .new_tag_read_record(reader, reader.inventory_round.index))
         tag_read_record.tag_pos = np.array(tag.pos, copy=True)
         tag_read_record.reader_antenna_pos = np.array(
@@ -224,7 +227,7 @@ def _one_tag_response(kernel, transaction, ctx, reader, tag, frame, snr, ber):
 
         # noinspection PyShadowingNames
         def on_slot_end(round_index, slot_index, reader, tag, statistics):
-            statistics.get_tag_record(tag).close_tag_read_record()
+            tag_record.close_tag_read_record()
             reader.slot_finish_listeners.remove(
                 statistics.slot_end_listener_id)
 
@@ -242,9 +245,8 @@ def _one_tag_response(kernel, transaction, ctx, reader, tag, frame, snr, ber):
             )
         )
 
-    if isinstance(frame.reply, std.ReadReply):
-        tag_read_record = ctx.statistics.get_tag_record(tag).tag_read_record
-        tag_read_record.read_tid = True
+    if isinstance(frame.reply, std.ReadReply) and tag_record is not None:
+        tag_record.tag_read_record.read_tid = True
 
         kernel.logger.info(
             '---> Received TID: memory={}, received power={} from tag {}'
diff --git a/pysim/models/rfid/objects.py b/pysim/models/rfid/objects.py
index 77eec93..ffd7484 100755
--- a/pysim/models/rfid/objects.py
+++ b/pysim/models/rfid/objects.py
@@ -1862,6 +1862,7 @@ class Statistics:
 
     def close_tag_record(self, tag):
         record = self._current_tag_records.pop(tag)
+        record.close_tag_read_record()
         self.tags_history.append(record)
 
     def average_rounds_per_tag(self):
-- 
2.43.0


From 3954561cc7e8467d8bdd7203ac36d75765a7b78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:50 +0000
Subject: [PATCH 11/48] fix: the bit error rate uses the fading distribution of
 the medium

---
 pysim/models/rfid/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysim/models/rfid/objects.py b/pysim/models/rfid/objects.py
index ffd7484..d18c796 100755
--- a/pysim/models/rfid/objects.py
+++ b/pysim/models/rfid/objects.py
@@ -1528,7 +1528,7 @@ class Medium:
         return snr
 
     def estimate_reader_rx_ber(self, reader, tag, tags, snr):
-        return chan.ber(snr)
+        return chan.ber(snr, distr=self.ber_distribution)
 
 
 #############################################################################
-- 
2.43.0


From dc4e6689a9eb30dc8498cd5ba99705219aeda8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:50 +0000
Subject: [PATCH 12/48] fix: the timeout of a switched off reader asks for an
 existing interval

---
 pysim/models/rfid/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysim/models/rfid/objects.py b/pysim/models/rfid/objects.py
index d18c796..e1cf74a 100755
--- a/pysim/models/rfid/objects.py
+++ b/pysim/models/rfid/objects.py
@@ -176,7 +176,7 @@ class _ReaderOFF(_ReaderState):
         super().__init__('OFF')
 
     def get_timeout(self, reader):
-        return reader.power_control_mode.power_off_interval(reader)
+        return reader.power_control_mode.powered_off_interval(reader)
 
     def enter(self, reader):
         # On turning off the reader must finish current round and power down.
-- 
2.43.0


From 26f3366192e109dd32af4e3baf134c84b678e356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:50 +0000
Subject: [PATCH 13/48] fix: byte sequences are accepted as reply payload

---
 pysim/models/rfid/epcstd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pysim/models/rfid/epcstd.py b/pysim/models/rfid/epcstd.py
index 2738602..71e89ac 100755
--- a/pysim/models/rfid/epcstd.py
+++ b/pysim/models/rfid/epcstd.py
@@ -1,6 +1,6 @@
 from enum import Enum
 import random
-import collections
+import collections.abc
 import numpy as np
 
 
@@ -545,7 +545,7 @@ class QueryReply(Reply):
 def to_bytes(value):
     if isinstance(value, str):
         return list(bytearray.fromhex(value))
-    elif isinstance(value, collections.Iterable):
+    elif isinstance(value, collections.abc.Iterable):
         value = list(value)
         for b in value:
             if not isinstance(b, int) or not (0 <= b < 256):
-- 
2.43.0


From 1646346fa0415a2a420d2b1e1fabb97828e39c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:50 +0000
Subject: [PATCH 14/48] fix: the duration of QueryAdjust uses the given
 delimiter

---
 pysim/models/rfid/epcstd.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pysim/models/rfid/epcstd.py b/pysim/models/rfid/epcstd.py
index 71e89ac..36188cb 100755
--- a/pysim/models/rfid/epcstd.py
+++ b/pysim/models/rfid/epcstd.py
@@ -884,8 +884,9 @@ def query_rep_duration(tari=None, rtcal=None, trcal=None, delim=None,
 def query_adjust_duration(
     delim=None, tari=None, rtcal=None, session=None, updn=None
 ):
+    updn = updn if updn is not None else 0
     return reader_frame_duration(QueryAdjust(session, updn), tari, rtcal,
-                                 delim)
+                                 delim=delim)
 
 
 # noinspection PyTypeChecker
-- 
2.43.0


From 24eacd8bb3f1a5d65066fedfbf413b4d31916c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:50 +0000
Subject: [PATCH 15/48] fix: command_duration knows QueryAdjust

---
 pysim/models/rfid/epcstd.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pysim/models/rfid/epcstd.py b/pysim/models/rfid/epcstd.py
index 36188cb..e38331b 100755
--- a/pysim/models/rfid/epcstd.py
+++ b/pysim/models/rfid/epcstd.py
@@ -855,6 +855,8 @@ def command_duration(command_code,
                               session, target, q, crc5)
     elif command_code is CommandCode.QUERY_REP:
         return query_rep_duration(tari, rtcal, trcal, delim, session)
+    elif command_code is CommandCode.QUERY_ADJUST:
+        return query_adjust_duration(delim, tari, rtcal, session)
     elif command_code is CommandCode.ACK:
         return ack_duration(tari, rtcal, trcal, delim, rn)
     elif command_code is CommandCode.REQ_RN:
-- 
2.43.0


From 4c6134c71a164454f20d697056ec750010d45be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:50 +0000
Subject: [PATCH 16/48] fix: the tag preamble duration has a default encoding

---
 pysim/models/rfid/epcstd.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pysim/models/rfid/epcstd.py b/pysim/models/rfid/epcstd.py
index e38331b..5b44e38 100755
--- a/pysim/models/rfid/epcstd.py
+++ b/pysim/models/rfid/epcstd.py
@@ -809,6 +809,7 @@ def tag_preamble_bitlen(encoding=None, trext=None):
 
 def tag_preamble_duration(blf=None, encoding=None, trext=None):
     blf = blf if blf is not None else get_blf()
+    encoding = encoding if encoding is not None else stdParams.tag_encoding
     bitlen = tag_preamble_bitlen(encoding, trext)
     return (bitlen * encoding.symbols_per_bit) / blf
 
-- 
2.43.0


From f4990806d150dbadf6807421ec5b45af64a7eea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:50 +0000
Subject: [PATCH 17/48] fix: slot duration takes the length of the EPC, not the
 EPC itself

---
 pysim/models/rfid/epcstd.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pysim/models/rfid/epcstd.py b/pysim/models/rfid/epcstd.py
index 5b44e38..51e700b 100755
--- a/pysim/models/rfid/epcstd.py
+++ b/pysim/models/rfid/epcstd.py
@@ -1155,7 +1155,8 @@ def slot_duration(slot_type, access_ops=None, tari=None, rtcal=None,
         return t_inventory_rn16
 
     t_ack = ack_duration(tari, rtcal, trcal, delim, rn)
-    t_ack_reply = ack_reply_duration(dr, trcal, m, trext, epc)
+    t_ack_reply = ack_reply_duration(
+        dr, trcal, m, trext, len(to_bytes(epc)) if epc is not None else None)
     t_inventory = (t_inventory_rn16 + t_ack +
                    np.maximum(t1_min + t_ack_reply + t2, t4))
 
-- 
2.43.0


From 011e1efc2f374290513e3813595d696095ad2ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:10 +0000
Subject: [PATCH 18/48] fix: no signal means a zero effective signal-to-noise
 ratio

---
 pysim/models/rfid/channel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysim/models/rfid/channel.py b/pysim/models/rfid/channel.py
index aba87e3..bd29227 100755
--- a/pysim/models/rfid/channel.py
+++ b/pysim/models/rfid/channel.py
@@ -192,7 +192,7 @@ def snr(power, noise):
 def snr_full(*, snr, miller=1, symbol=1.25e-6, preamble=9.3e-6,
              bandwidth=1.2e6, tol=1e-8, **kwargs):
     if snr < tol:
-        return 0.5
+        return 0.0
 
     # print(">>> miller={}, symbol={}, preamble={}, bandwidth={}".format(
     #     miller, symbol, preamble, bandwidth
-- 
2.43.0


From 6cc243059fb393236d22737a55879a0d78ca84f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:35 +0000
Subject: [PATCH 19/48] fix: schedule rejects what it is documented to reject

---
 pysim/sim/simulator.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/pysim/sim/simulator.py b/pysim/sim/simulator.py
index a7da8a3..0e332a2 100755
--- a/pysim/sim/simulator.py
+++ b/pysim/sim/simulator.py
@@ -337,9 +337,17 @@ class Kernel:
             msg: str = ''
     ) -> EventId:
         '''Планирование нового события'''
-        if delay is not None:
-            return self._queue.push(self._sim_time + delay, (handler, args, msg))
-        return None
+        if handler is None:
+            raise ValueError("event handler is None")
+        if not callable(handler):
+            raise TypeError("event handler is not callable")
+        if not isinstance(args, Iterable):
+            raise TypeError("event handler arguments are not iterable")
+        if delay is None:
+            return None
+        if delay < 0:
+            raise SchedulingInPastError(f"negative delay: {delay}")
+        return self._queue.push(self._sim_time + delay, (handler, args, msg))
 
     def cancel(self, event_id: EventId) -> int:
         '''Отменить событие с идентификатором `event_id`'''
-- 
2.43.0


From 7a4f4f6a27ee796dd99dc39e621e43b2f4740752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:35 +0000
Subject: [PATCH 20/48] fix: the limit of the number of events stops the run

---
 pysim/sim/simulator.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pysim/sim/simulator.py b/pysim/sim/simulator.py
index 0e332a2..8591ae4 100755
--- a/pysim/sim/simulator.py
+++ b/pysim/sim/simulator.py
@@ -27,6 +27,7 @@ class ExitReason(Enum):
     REACHED_SIM_TIME_LIMIT = 2
     STOPPED = 3
     INTERRUPTED = 4  # выполнение не закончилось - прерывание при отладке
+    REACHED_NUM_EVENTS_LIMIT = 5
 
 
 @dataclass
@@ -370,6 +371,10 @@ class Kernel:
         elif self._max_real_time is not None and self.real_time_elapsed > self._max_real_time:
             self.stop_reason = ExitReason.REACHED_REAL_TIME_LIMIT
             return True
+        elif (self._max_num_events is not None and
+                self._num_events_served >= self._max_num_events):
+            self.stop_reason = ExitReason.REACHED_NUM_EVENTS_LIMIT
+            return True
         elif self._user_stop:
             return True
 
-- 
2.43.0


From fcabd4587ac86ded216cf5c6d8b0229ed7aac7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:35 +0000
Subject: [PATCH 21/48] fix: a run that runs out of events reports so

---
 pysim/sim/simulator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pysim/sim/simulator.py b/pysim/sim/simulator.py
index 8591ae4..c70a8ea 100755
--- a/pysim/sim/simulator.py
+++ b/pysim/sim/simulator.py
@@ -452,6 +452,10 @@ class Kernel:
             handler(sim, *args)
             self._num_events_served += 1
             self.lhandler = handler
+
+        if self.stop_reason is None:
+            self.stop_reason = ExitReason.NO_MORE_EVENTS
+
         if self._finalize:
             fin_ret = self._finalize(sim)
         else:
-- 
2.43.0


From 48e8a9e5439efcf4e949cbda9b0710ab96a6be2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:35 +0000
Subject: [PATCH 22/48] fix: cancelled events are not listed

---
 pysim/sim/simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysim/sim/simulator.py b/pysim/sim/simulator.py
index c70a8ea..f8a821b 100755
--- a/pysim/sim/simulator.py
+++ b/pysim/sim/simulator.py
@@ -264,7 +264,7 @@ class EventQueue:
         return len(self._event_dict) == 0
 
     def to_list(self):
-        return list(self._event_list)
+        return [event for event in self._event_list if event[-1] is not None]
 
 
 class Kernel:
-- 
2.43.0


From e061dacf694b9586a1e07ec36b7249d0bf67507c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:35 +0000
Subject: [PATCH 23/48] fix: the log file name uses the configured separator

---
 pysim/sim/logger.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pysim/sim/logger.py b/pysim/sim/logger.py
index af5e50e..1068f3d 100755
--- a/pysim/sim/logger.py
+++ b/pysim/sim/logger.py
@@ -200,7 +200,8 @@ class ModelLogger:
             else:
                 file_name = ModelLogger.build_file_name(
                     config.file_name, 
-                    self._run_id
+                    self._run_id,
+                    config.file_name_sep
                 )
             
             # Каждый запуск создает отдельный файл, поэтому режим = 'w'
-- 
2.43.0


From ab189c8ae492468426a03b985a90cfe9cb2ccc24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:35 +0000
Subject: [PATCH 24/48] fix: a run identifier of zero is a run identifier

---
 pysim/sim/logger.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pysim/sim/logger.py b/pysim/sim/logger.py
index 1068f3d..fd7a4cd 100755
--- a/pysim/sim/logger.py
+++ b/pysim/sim/logger.py
@@ -143,7 +143,8 @@ class ModelLogger:
         """
         self._logger = logging.getLogger(model_name)
         self.time_getter = time_getter or (lambda: 0)
-        self._run_id: int = run_id or uuid.uuid4().int % 1_000_000
+        self._run_id: int = (
+            uuid.uuid4().int % 1_000_000 if run_id is None else run_id)
         self._setup_was_called: bool = False
     
     def set_time_getter(self, fn: Callable[[], float]) -> None:
-- 
2.43.0


From d44bd27beb59ed6e21cd9a8e4c16897dc16abd22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:35 +0000
Subject: [PATCH 25/48] fix: records of custom levels can be coloured

---
 pysim/sim/logger.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pysim/sim/logger.py b/pysim/sim/logger.py
index fd7a4cd..e15d910 100755
--- a/pysim/sim/logger.py
+++ b/pysim/sim/logger.py
@@ -42,7 +42,9 @@ class ColoredFormatter(logging.Formatter):
         }
 
     def format(self, record):
-        log_fmt: logging.Formatter = self.FORMATS[record.levelno]
+        log_fmt = self.FORMATS.get(record.levelno)
+        if log_fmt is None:
+            return super().format(record)
         return log_fmt.format(record)
 
 
-- 
2.43.0


From d8a7a36c59d982949a8a9418b4bb7d801b05c6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:35 +0000
Subject: [PATCH 26/48] fix: destination log levels below the common level take
 effect

---
 pysim/sim/logger.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pysim/sim/logger.py b/pysim/sim/logger.py
index e15d910..93b1694 100755
--- a/pysim/sim/logger.py
+++ b/pysim/sim/logger.py
@@ -214,7 +214,11 @@ class ModelLogger:
             self._logger.addHandler(f_handler)
 
         self._logger.propagate = False
-        self._logger.setLevel(config.level)
+        # Порог логгера не должен скрывать записи, нужные обработчикам
+        self._logger.setLevel(min(
+            [handler.level for handler in self._logger.handlers],
+            default=config.level
+        ))
         
         # Отменчаем, что настройка была выполнена.
         self._setup_was_called = True
-- 
2.43.0


From a8fd794f3116395c27d25f5a00c9c141d4f42c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:54 +0000
Subject: [PATCH 27/48] fix: the client counts exactly the lost pings as missed

---
 pysim/models/pingpong/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pysim/models/pingpong/model.py b/pysim/models/pingpong/model.py
index aac84bb..61b7da5 100755
--- a/pysim/models/pingpong/model.py
+++ b/pysim/models/pingpong/model.py
@@ -98,8 +98,9 @@ class Client(Node):
         assert self.channel is not None
         assert self.server is not None
 
-        if not self.was_acknowledged:
+        if self.num_pings_sent > 0 and not self.was_acknowledged:
             self.num_missed += 1
+        self.was_acknowledged = False
         self.number += 1
         if self.max_pings is None or self.num_pings_sent < self.max_pings:
             sim.logger.debug("client timeout, sending ping #%d", self.number)
-- 
2.43.0


From 631a3e33fcc86f641c781e68c2d0f1a2f04e8488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:54 +0000
Subject: [PATCH 28/48] fix: a ping is never lost when the loss probability is
 zero

---
 pysim/models/pingpong/model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pysim/models/pingpong/model.py b/pysim/models/pingpong/model.py
index 61b7da5..afaf0a7 100755
--- a/pysim/models/pingpong/model.py
+++ b/pysim/models/pingpong/model.py
@@ -165,8 +165,9 @@ class Server(Node):
             sim (Simulator): симулятор
             ping (Packet): число из Ping-а
         """
-        if random.random() > self.loss_prob:
-            # Пакет не потерян (1 >= X > Pl <=> 0 <= X < 1 - Pl)
+        if random.random() >= self.loss_prob:
+            # Пакет не потерян: random() из [0, 1), поэтому при loss_prob = 0
+            # не теряется ни один пакет, а при loss_prob = 1 теряются все.
             sim.logger.debug("ping successfully reached the server")
             sim.schedule(self.delay, self.handle_service_end, (ping,))
         else:
-- 
2.43.0


From de45267305faf959dd6bddc506ef65087a6a4769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:54 +0000
Subject: [PATCH 29/48] fix: the miss rate is the share of lost pings

---
 pysim/models/pingpong/handlers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysim/models/pingpong/handlers.py b/pysim/models/pingpong/handlers.py
index 1b1b3c9..37ffc98 100755
--- a/pysim/models/pingpong/handlers.py
+++ b/pysim/models/pingpong/handlers.py
@@ -21,6 +21,6 @@ def finalize(sim: Simulator) -> Result:
         avg_interval=statistics.mean(model.client.intervals_list),
         avg_delay=statistics.mean(model.channel.delays_list),
         miss_rate=(
-            model.client.num_acknowledged / model.client.num_pings_sent
+            model.client.num_missed / model.client.num_pings_sent
         ),
     )
-- 
2.43.0


From 91332a4d0cff8eb58d451d5a3d0630424cfbab48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:54 +0000
Subject: [PATCH 30/48] fix: the Ping-Pong result exists without observations
 too

---
 pysim/models/pingpong/handlers.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pysim/models/pingpong/handlers.py b/pysim/models/pingpong/handlers.py
index 37ffc98..0e82e6d 100755
--- a/pysim/models/pingpong/handlers.py
+++ b/pysim/models/pingpong/handlers.py
@@ -17,10 +17,15 @@ def finalize(sim: Simulator) -> Result:
     # noinspection PyTypeChecker
     model: Model = sim.context
 
+    def mean(values):
+        # Наблюдений может не быть: все пинги потеряны или не отправлялись
+        return statistics.mean(values) if values else 0.0
+
+    num_pings_sent = model.client.num_pings_sent
     return Result(
-        avg_interval=statistics.mean(model.client.intervals_list),
-        avg_delay=statistics.mean(model.channel.delays_list),
+        avg_interval=mean(model.client.intervals_list),
+        avg_delay=mean(model.channel.delays_list),
         miss_rate=(
-            model.client.num_missed / model.client.num_pings_sent
+            model.client.num_missed / num_pings_sent if num_pings_sent else 0.0
         ),
     )
-- 
2.43.0


From 21af8512975118f2e75c815fc6a1f84b63b2806b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:54 +0000
Subject: [PATCH 31/48] fix: a tag state with probability zero is never left

---
 pysim/models/tag_time/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysim/models/tag_time/model.py b/pysim/models/tag_time/model.py
index 6ff5de1..9b28ae3 100644
--- a/pysim/models/tag_time/model.py
+++ b/pysim/models/tag_time/model.py
@@ -235,7 +235,7 @@ class State():
             sim.logger.debug(
                 f'Время обработки вышло, отправка пакета № {packet.number}'
             )
-            if random.random() > self.probability:
+            if random.random() >= self.probability:
                 # Метка осталась в текущем состоянии (неудача)
                 self.faild_state_change(sim, packet)
             else:
-- 
2.43.0


From 666f1257fc741015a8cf7ddee4eaef0dfb0f86b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:54 +0000
Subject: [PATCH 32/48] fix: the mean time of the second scenario is not a
 truncated series

---
 pysim/models/tag_time/analitical_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pysim/models/tag_time/analitical_model.py b/pysim/models/tag_time/analitical_model.py
index f8cd192..076b1e4 100644
--- a/pysim/models/tag_time/analitical_model.py
+++ b/pysim/models/tag_time/analitical_model.py
@@ -51,8 +51,8 @@ def calculate_second_case(phases):
     '''
     res = 0
     for phase in phases:
-        for n in range(1000):
-            res += (n + 1) * phase[1] * phase[0] * ((1 - phase[0]) ** n)
+        # Сумма ряда (n + 1) * t * p * (1 - p)^n по всем n >= 0
+        res += phase[1] / phase[0]
     return res
 
 
-- 
2.43.0


From 34d0f9c7c736da9027d2b86f00a123164374aaf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:54 +0000
Subject: [PATCH 33/48] fix: the chunk state of the third scenario is the
 fourth one

---
 pysim/models/tag_time/analitical_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysim/models/tag_time/analitical_model.py b/pysim/models/tag_time/analitical_model.py
index 076b1e4..e9488af 100644
--- a/pysim/models/tag_time/analitical_model.py
+++ b/pysim/models/tag_time/analitical_model.py
@@ -95,7 +95,7 @@ def run_analitica(script_number, all_phases, chunks_number):
         for i in range(len(all_phases)):
             analit_res.append(
                 calculate_third_case(
-                    all_phases[i][0:3], all_phases[i][4], chunks_number
+                    all_phases[i][0:3], all_phases[i][3], chunks_number
                 )*1_000
             )
     return analit_res
-- 
2.43.0


From 7692df47b3679f3629958aa9f723796f2b86992a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:54 +0000
Subject: [PATCH 34/48] fix: state times use the divide ratio they are computed
 for

---
 pysim/models/tag_time/calculate_params.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pysim/models/tag_time/calculate_params.py b/pysim/models/tag_time/calculate_params.py
index fa8f5b0..7a98123 100644
--- a/pysim/models/tag_time/calculate_params.py
+++ b/pysim/models/tag_time/calculate_params.py
@@ -218,8 +218,10 @@ def prepare_probs(params, chunks_number, ber, points_number):
 
 
 def prepare_times(params, probs, chunks_number):
-    T1 = p.link_t1_max(rtcal=params['rtcal'], trcal=params['trcal'], dr=None)
-    T2 = p.link_t2_max(trcal=params['trcal'], dr=None)
+    T1 = p.link_t1_max(
+        rtcal=params['rtcal'], trcal=params['trcal'], dr=params['DR']
+    )
+    T2 = p.link_t2_max(trcal=params['trcal'], dr=params['DR'])
     T1_2 = T1 + T2
     delta = 1e-5
 
-- 
2.43.0


From 9610be176726b41265703b598cfd47d723eceba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:54 +0000
Subject: [PATCH 35/48] fix: parallel simulations get the QueryAdjust
 parameters too

---
 pysim/models/rfid/cli.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pysim/models/rfid/cli.py b/pysim/models/rfid/cli.py
index 5d45aab..c3553ca 100644
--- a/pysim/models/rfid/cli.py
+++ b/pysim/models/rfid/cli.py
@@ -144,6 +144,8 @@ def prepare_multiple_simulation(variadic, **kwargs):
         'power': kwargs['power'],
         'num_tags': kwargs['num_tags'],
         'verbose': False,
+        'useadjust': kwargs['useadjust'],
+        'delta': kwargs['delta'],
     } for _ in enumerate(variadic_values)]
 
     # Теперь заменим значения варьируемого аргумента, чтобы в каждом
-- 
2.43.0


From 00aea6ecd08fa38e70d0074e35ab47656c54423a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:54 +0000
Subject: [PATCH 36/48] fix: the fractional Q starts from the configured Q

---
 pysim/models/rfid/configurator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pysim/models/rfid/configurator.py b/pysim/models/rfid/configurator.py
index 26e287f..e6ec87c 100644
--- a/pysim/models/rfid/configurator.py
+++ b/pysim/models/rfid/configurator.py
@@ -133,7 +133,8 @@ class Settings:
     # (если есть значение по умолчанию в click, то не используется)
     # коэффициент, на который изменяется значение q
     adjust_delta: float = 0.1
-    q_fp: float = q
+    # начальное дробное значение Q, если не задано - равно q
+    q_fp: float | None = None
 
     # Значение поля Target команды Query, то есть флаг сессии, по которому
     # идет опрос меток. Ответ будут передавать только те метки, которые хранят
@@ -279,7 +280,7 @@ def create_model(settings=None, verbose=False, **kwargs) -> Model:
         'useadjust', settings.use_query_adjust
     )
     reader.adjust_delta = kwargs.get('delta', settings.adjust_delta)
-    reader.q_fp = settings.q_fp
+    reader.q_fp = settings.q if settings.q_fp is None else settings.q_fp
     print(reader.use_query_adjust)
 
     # 2) Attaching antennas to reader
-- 
2.43.0


From 36dbaa03e27e6788e3fcc302aa57f7440657e326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:27 +0000
Subject: [PATCH 37/48] fix: nothing is logged to the console when it is not
 enabled

---
 pysim/sim/logger.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pysim/sim/logger.py b/pysim/sim/logger.py
index 93b1694..d7d276f 100755
--- a/pysim/sim/logger.py
+++ b/pysim/sim/logger.py
@@ -219,6 +219,9 @@ class ModelLogger:
             [handler.level for handler in self._logger.handlers],
             default=config.level
         ))
+        if not self._logger.handlers:
+            # Без обработчиков logging сам пишет предупреждения в консоль
+            self._logger.addHandler(logging.NullHandler())
         
         # Отменчаем, что настройка была выполнена.
         self._setup_was_called = True
-- 
2.43.0


From 19a4ce486c99de6f51f7085d8eb09f6c4d461cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:51 +0000
Subject: [PATCH 38/48] fix: the configured flag persistence reaches the tags

---
 pysim/models/rfid/configurator.py | 3 +++
 pysim/models/rfid/objects.py      | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/pysim/models/rfid/configurator.py b/pysim/models/rfid/configurator.py
index e6ec87c..097bc3a 100644
--- a/pysim/models/rfid/configurator.py
+++ b/pysim/models/rfid/configurator.py
@@ -320,6 +320,9 @@ def create_model(settings=None, verbose=False, **kwargs) -> Model:
     generator.tid_prefix = 'A' * 4
     generator.epc_bitlen = settings.epc_bitlen
     generator.tid_bitlen = settings.get_tid_bitlen(reader.read_tid_words_num)
+    generator.s1_persistence = settings.s1_persistence
+    generator.s2_persistence = settings.s2_persistence
+    generator.s3_persistence = settings.s3_persistence
 
     generator.max_tags_generated = model.max_tags_num
     generator.antenna_gain = settings.tag_antenna_gain
diff --git a/pysim/models/rfid/objects.py b/pysim/models/rfid/objects.py
index e1cf74a..1bc0577 100755
--- a/pysim/models/rfid/objects.py
+++ b/pysim/models/rfid/objects.py
@@ -1345,6 +1345,9 @@ class Generator:
     tid_bitlen = 64
     epc_prefix = 'AAAA'
     tid_prefix = 'AAAA'
+    s1_persistence = 2.0  # sec.
+    s2_persistence = 2.0  # sec.
+    s3_persistence = 2.0  # sec.
     max_tags_generated = -1
     num_tags_generated = 0
     _epc_suffix = None
@@ -1404,6 +1407,9 @@ class Generator:
         tag.antenna.cable_loss = self.cable_loss
         tag.sensitivity = self.sensitivity
         tag.modulation_loss = self.modulation_loss
+        tag.s1_persistence = self.s1_persistence
+        tag.s2_persistence = self.s2_persistence
+        tag.s3_persistence = self.s3_persistence
         return tag
 
 
-- 
2.43.0


From bc50f95a0703bd31bc141a5b0ab3c280bd6d9359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:51 +0000
Subject: [PATCH 39/48] fix: tags with integer start coordinates can move

---
 pysim/models/rfid/handlers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysim/models/rfid/handlers.py b/pysim/models/rfid/handlers.py
index 08e4451..11e6e7c 100755
--- a/pysim/models/rfid/handlers.py
+++ b/pysim/models/rfid/handlers.py
@@ -31,7 +31,7 @@ def _update_power(time, reader, tags, transaction, medium, statistics):
     for tag in tags:
         power = medium.estimate_tag_rx_power(reader, tag, time)
         tag.set_power(time, power)
-        tag.pos += tag.velocity * tag.normalized_direction * (
+        tag.pos = tag.pos + tag.velocity * tag.normalized_direction * (
             time - tag.last_pos_update
         )
         tag.last_pos_update = time
-- 
2.43.0


From 01bd593cf8204741f52f163dd000bdd5fddcfa73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:51 +0000
Subject: [PATCH 40/48] fix: results of several tag offsets can be plotted

---
 pysim/models/rfid/processing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysim/models/rfid/processing.py b/pysim/models/rfid/processing.py
index b05d60b..307c47d 100644
--- a/pysim/models/rfid/processing.py
+++ b/pysim/models/rfid/processing.py
@@ -91,7 +91,7 @@ def plot_results(initial_data, results, variadic, save_fig = True):
     results_dict = results_to_dict(ret)
     current_time = time.strftime('%Y%m%d_%H%M%S', time.localtime())
     filename = 'results/plots/' + current_time + '-' + variadic + '.png'
-    units = {'speed': 'km/h', 'reader_offset': 'm', 'altitude': 'm', 'power': 'dBm', 'tid_word_size': 'words'}
+    units = {'speed': 'km/h', 'reader_offset': 'm', 'tag_offset': 'm', 'altitude': 'm', 'power': 'dBm', 'tid_word_size': 'words'}
     
     fig, ax = plt.subplots(figsize=(14, 8), layout='constrained')
     ax.plot(
-- 
2.43.0


From b09251ff17d9b15bea4a8ab1beeaa6680fdbd886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:51 +0000
Subject: [PATCH 41/48] fix: the power of a tag is estimated at its current
 position

---
 pysim/models/rfid/handlers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pysim/models/rfid/handlers.py b/pysim/models/rfid/handlers.py
index 11e6e7c..895155c 100755
--- a/pysim/models/rfid/handlers.py
+++ b/pysim/models/rfid/handlers.py
@@ -29,12 +29,12 @@ def start_simulation(kernel):
 
 def _update_power(time, reader, tags, transaction, medium, statistics):
     for tag in tags:
-        power = medium.estimate_tag_rx_power(reader, tag, time)
-        tag.set_power(time, power)
         tag.pos = tag.pos + tag.velocity * tag.normalized_direction * (
             time - tag.last_pos_update
         )
         tag.last_pos_update = time
+        power = medium.estimate_tag_rx_power(reader, tag, time)
+        tag.set_power(time, power)
         # uncomment lines below for PL debug
         # print(f'Estimated tag RX power: {power}')
         # print(f'- tag:    pos={tag.antenna.pos}, '
-- 
2.43.0


From eed9547a4322c0502efcf9643c3d29270cce8896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:08 +0000
Subject: [PATCH 42/48] fix: the mean time of the first scenario keeps its
 accuracy for small probabilities

---
 pysim/models/tag_time/analitical_model.py | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/pysim/models/tag_time/analitical_model.py b/pysim/models/tag_time/analitical_model.py
index e9488af..d9a5192 100644
--- a/pysim/models/tag_time/analitical_model.py
+++ b/pysim/models/tag_time/analitical_model.py
@@ -1,6 +1,3 @@
-import numpy as np
-
-
 def convert_data_for_analitica(probs, t):
     '''
     Конвертация входных данных в формат,
@@ -27,17 +24,13 @@ def calculate_first_case(phases):
     где p - вероятность передачи,
     t - время нахождения в состоянии;
     '''
-    times = [phase[1] for phase in phases]
-    probs = [phase[0] for phase in phases]
-
-    matrix = np.array([
-        [probs[0],     -probs[0], 0,         0],
-        [probs[1] - 1, 1,         -probs[1], 0],
-        [probs[2] - 1, 0,         1,         -probs[2]],
-        [probs[3] - 1, 0,         0,         1]
-    ])
-
-    return np.dot(np.linalg.inv(matrix)[0], np.array(times))
+    # При малых вероятностях матрица (I - Q) почти вырождена и её обращение
+    # теряет все знаки, поэтому система решается подстановкой: чтобы пройти
+    # фазу, в среднем нужно 1/p раз добраться до неё с начала и пробыть в ней.
+    res = 0
+    for prob, time in phases:
+        res = (res + time) / prob
+    return res
 
 
 def calculate_second_case(phases):
-- 
2.43.0


From c520b4ae14b6b18d5ecc0b5618fed21b178cd534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:07 +0000
Subject: [PATCH 43/48] fix: Ping-Pong results are shown next to the values
 they belong to

---
 pysim/models/pingpong/processing.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pysim/models/pingpong/processing.py b/pysim/models/pingpong/processing.py
index 47ebaff..316ad2e 100644
--- a/pysim/models/pingpong/processing.py
+++ b/pysim/models/pingpong/processing.py
@@ -56,6 +56,9 @@ def result_processing(initial_data, results, variadic, save_results=False):
         'miss_rate': []
         }
     if isinstance(results, list):
+        # Симуляции выполнены для различных значений по возрастанию, в том же
+        # порядке показываем и сами значения
+        initial_data[variadic] = sorted(set(initial_data[variadic]))
         for i in range(len(results)):
             res['avg_interval'].append(results[i].avg_interval),
             res['avg_delay'].append(results[i].avg_delay),
-- 
2.43.0


From 0c4a2071df4547f6eb6320b30e93f3efe89c28cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:48 +0000
Subject: [PATCH 44/48] fix: path loss is defined for a tag exactly on the
 antenna axis (the cosine rounded above one)

---
 pysim/models/rfid/channel.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pysim/models/rfid/channel.py b/pysim/models/rfid/channel.py
index bd29227..2993456 100755
--- a/pysim/models/rfid/channel.py
+++ b/pysim/models/rfid/channel.py
@@ -5,7 +5,8 @@ import scipy.special as special
 
 
 def to_sin(cos):
-    return (1 - cos ** 2) ** .5
+    # Из-за округления косинус может оказаться чуть больше единицы
+    return max(1 - cos ** 2, 0.) ** .5
 
 
 def to_log(value, dbm=False, tol=1e-15):
@@ -83,7 +84,7 @@ def reflection_constant(**kwargs):
 
 
 def reflection(*, cosine, polarization, permittivity, conductivity, wavelen, **kwargs):
-    sine = (1 - cosine ** 2) ** .5
+    sine = to_sin(cosine)
 
     if polarization != 0:
         c_parallel = __c_parallel(cosine, permittivity, conductivity, wavelen)
-- 
2.43.0


From 5ab56a03378d5372a93de82b890cd4ab5d3a5384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:46 +0000
Subject: [PATCH 45/48] fix: the effective SNR uses the preamble the tag
 answers with

---
 pysim/models/rfid/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysim/models/rfid/objects.py b/pysim/models/rfid/objects.py
index 1bc0577..a73abc2 100755
--- a/pysim/models/rfid/objects.py
+++ b/pysim/models/rfid/objects.py
@@ -1528,7 +1528,7 @@ class Medium:
         # print('>>>>>>>>> blf, m, symbol', blf, m, symbol)
         snr = chan.snr_full(
             snr=raw_snr, miller=m.symbols_per_bit, symbol=symbol,
-            preamble=std.tag_preamble_duration(blf, m),
+            preamble=std.tag_preamble_duration(blf, m, tag.trext),
             bandwidth=self.bandwidth)
         # print('>>>>>>>>>> snr full', snr)
         return snr
-- 
2.43.0


From 38fd4f3d316cb3a364d7bc21cf783fe0ab250ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:18 +0000
Subject: [PATCH 46/48] fix: the reflected ray arrives from the mirror image of
 the transmitter

---
 pysim/models/rfid/channel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysim/models/rfid/channel.py b/pysim/models/rfid/channel.py
index 2993456..7cbebc3 100755
--- a/pysim/models/rfid/channel.py
+++ b/pysim/models/rfid/channel.py
@@ -136,7 +136,7 @@ def two_ray_pathloss(*, time, ground_reflection, wavelen,
     d0_vector_tx_n = d0_vector / d0  # LoS ray vector normalized
     d0_vector_rx_n = -d0_vector_tx_n
     d1_vector_tx_n = d1_vector / d1  # NLoS ray vector normalized
-    d1_vector_rx_n = np.array([-d1_vector_tx_n[0], -d1_vector_tx_n[1], d1_vector_tx_n[2]])
+    d1_vector_rx_n = np.array([-d1_vector_tx_n[0], d1_vector_tx_n[1], d1_vector_tx_n[2]])
 
     # Предполагается, что стена, от которой происходит отражение - это плоскость YOZ
     x_rfp = 0
-- 
2.43.0


From 9858cd37424ff11e5be628f2865b846972612764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:40 +0000
Subject: [PATCH 47/48] fix: build_simulation(debug=True) runs the kernel in
 debug mode

build_runner() without an argument switched the debug mode off again.
---
 pysim/sim/simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysim/sim/simulator.py b/pysim/sim/simulator.py
index f8a821b..fa17465 100755
--- a/pysim/sim/simulator.py
+++ b/pysim/sim/simulator.py
@@ -554,7 +554,7 @@ def build_simulation(
     kernel.set_debug(debug)
 
     # Запускаем модель и возвращаем все, что она вернет
-    return kernel.build_runner()
+    return kernel.build_runner(debug)
 
 
 def run_simulation(sim: Iterator[ExecResult]) -> ExecResult:
-- 
2.43.0


From c7358b3b74c4a7d89f6f70f4dd6143a653f9ead5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:40 +0000
Subject: [PATCH 48/48] fix: get_color works with current matplotlib

matplotlib.cm.get_cmap() does not exist since matplotlib 3.9.
---
 pysim/experiments/utility/graphs_style.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysim/experiments/utility/graphs_style.py b/pysim/experiments/utility/graphs_style.py
index f5bad32..c21c51e 100755
--- a/pysim/experiments/utility/graphs_style.py
+++ b/pysim/experiments/utility/graphs_style.py
@@ -40,7 +40,7 @@ def get_color(x: float):
     Returns:
         color
     """
-    return matplotlib.cm.get_cmap(CMAP_NAME)(x)
+    return matplotlib.colormaps[CMAP_NAME](x)
 
 
 def savefig(name: str, exts: Sequence[str] = IMAGE_EXTENSIONS,
-- 
2.43.0

