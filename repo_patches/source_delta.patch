From b1bfc40dbedd5b1b6a42b5b527c3df1533afe135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:20 +0000
Subject: [PATCH 01/52] fix: wait for the whole Modbus ADU, the length field
 does not count the header

---
 src/app/modbus/ModbusCodec.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/app/modbus/ModbusCodec.cpp b/src/app/modbus/ModbusCodec.cpp
index ad35108..47d5018 100644
--- a/src/app/modbus/ModbusCodec.cpp
+++ b/src/app/modbus/ModbusCodec.cpp
@@ -51,7 +51,7 @@ bool ModbusCodec::isAduHdrReceived() const
 
 bool ModbusCodec::isAduReceived() const
 {
-    return buf.size() >= aduPktLen();
+    return buf.size() >= (aduPktLen() + aduHdrLen);
 }
 
 bool ModbusCodec::isAduDataLenValid() const
-- 
2.43.0


From 2bfda0a780d7b6be750fb8213c77c08aa0555dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:20 +0000
Subject: [PATCH 02/52] fix: reject an oversized preset-multiple request before
 it overflows the buffer

---
 src/app/modbus/ModbusCodec.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/app/modbus/ModbusCodec.cpp b/src/app/modbus/ModbusCodec.cpp
index 47d5018..e992bd6 100644
--- a/src/app/modbus/ModbusCodec.cpp
+++ b/src/app/modbus/ModbusCodec.cpp
@@ -132,6 +132,11 @@ bool ModbusCodec::encode(AduRequest const& adu)
             LM(MODBUS, LE, "ADU encode, unexpected number of bytes");
             return false;
         }
+        if (aduHdrLen + 1 + 1 + 2 + 2 + 1 + adu.numBytes > maxAduLen)
+        {
+            LM(MODBUS, LE, "ADU encode, too many bytes(%u) in request", adu.numBytes);
+            return false;
+        }
         buf.writeBe(adu.transactId);
         buf.writeBe(modbusProtocolId);
         buf.writeBe(1 + 1 + 2 + 2 + 1 + adu.numBytes);
-- 
2.43.0


From 721deb83bd83e48ba2ca69cf1b5131a95294b052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:20 +0000
Subject: [PATCH 03/52] fix: check the size of a read response before writing
 it to the buffer

---
 src/app/modbus/ModbusCodec.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/app/modbus/ModbusCodec.cpp b/src/app/modbus/ModbusCodec.cpp
index e992bd6..acac321 100644
--- a/src/app/modbus/ModbusCodec.cpp
+++ b/src/app/modbus/ModbusCodec.cpp
@@ -266,17 +266,17 @@ bool ModbusCodec::encode(AduRespond const& adu)
     case ModbusFunction::readHoldingRegisters:
     case ModbusFunction::readInputRegisters:
     {
+        if (adu.numBytes % 2 || aduHdrLen + 1 + 1 + 1 + adu.numBytes > maxAduLen)
+        {
+            LM(MODBUS, LW, "ADU encode, unexpected number of bytes: %u", adu.numBytes);
+            return false;
+        }
         buf.writeBe(adu.transactId);
         buf.writeBe(modbusProtocolId);
         buf.writeBe(1 + 1 + 1 + adu.numBytes);
         buf.write(adu.addr);
         buf.write(toUint8(adu.func));
         buf.write(adu.numBytes);
-        if (adu.numBytes % 2)
-        {
-            LM(MODBUS, LW, "ADU encode, unexpected number of bytes: %u", adu.numBytes);
-            return false;
-        }
         for (unsigned i = 0; i < adu.numBytes; i += 2)
         {
             buf.write(adu.data[i + 1]);
-- 
2.43.0


From 1d9e383abff634315f0fe56abe88587fd8588f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:20 +0000
Subject: [PATCH 04/52] fix: the high byte of a single coil value is data[1],
 as for registers

---
 src/app/modbus/ModbusCodec.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/app/modbus/ModbusCodec.cpp b/src/app/modbus/ModbusCodec.cpp
index acac321..6be7265 100644
--- a/src/app/modbus/ModbusCodec.cpp
+++ b/src/app/modbus/ModbusCodec.cpp
@@ -107,10 +107,10 @@ bool ModbusCodec::encode(AduRequest const& adu)
         }
         if (adu.func == ModbusFunction::forceSingleCoil)
         {
-            if ((adu.data[1] != 0x0) || (adu.data[0] != 0x0 && adu.data[0] != 0xFF))
+            if ((adu.data[0] != 0x0) || (adu.data[1] != 0x0 && adu.data[1] != 0xFF))
             {
-                unsigned hh = adu.data[0];
-                unsigned ll = adu.data[1];
+                unsigned hh = adu.data[1];
+                unsigned ll = adu.data[0];
                 LM(MODBUS, LW, "ADU encode, expected value is 0xFF00 | 0x0000, but given %u", (hh << 8) | ll);
                 return false;
             }
@@ -294,10 +294,10 @@ bool ModbusCodec::encode(AduRespond const& adu)
         }
         if (adu.func == ModbusFunction::forceSingleCoil)
         {
-            if ((adu.data[1] != 0x0) || (adu.data[0] != 0x0 && adu.data[0] != 0xFF))
+            if ((adu.data[0] != 0x0) || (adu.data[1] != 0x0 && adu.data[1] != 0xFF))
             {
-                unsigned hh = adu.data[0];
-                unsigned ll = adu.data[1];
+                unsigned hh = adu.data[1];
+                unsigned ll = adu.data[0];
                 LM(MODBUS, LW, "ADU encode, expected value is 0xFF00 | 0x0000, but given %u", (hh << 8) | ll);
                 return false;
             }
-- 
2.43.0


From 46e8be93d003ce703d3121f0ccd02e07d2f65f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:20 +0000
Subject: [PATCH 05/52] fix: do not keep counts of the previous request when a
 request is decoded

---
 src/app/modbus/ModbusCodec.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/app/modbus/ModbusCodec.cpp b/src/app/modbus/ModbusCodec.cpp
index 6be7265..5025373 100644
--- a/src/app/modbus/ModbusCodec.cpp
+++ b/src/app/modbus/ModbusCodec.cpp
@@ -196,6 +196,7 @@ bool ModbusCodec::decode(AduRequest& adu)
         }
         adu.startItem = buf.readBe();
         adu.numItems = buf.readBe();
+        adu.numBytes = 0;
         if (pduLen(adu.func, adu.numItems) > maxPduLen)
         {
             LM(MODBUS, LE, "ADU decode, unexpected number of items(%u) in request", adu.numItems);
@@ -212,6 +213,7 @@ bool ModbusCodec::decode(AduRequest& adu)
             return false;
         }
         adu.startItem = buf.readBe();
+        adu.numItems = 0;
         adu.numBytes = 2;
         adu.data[1] = buf.read();
         adu.data[0] = buf.read();
-- 
2.43.0


From a3312988f6e4554696d79a14405518a7dbcde16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:20 +0000
Subject: [PATCH 06/52] fix: check the length of a Modbus error response

---
 src/app/modbus/ModbusCodec.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/app/modbus/ModbusCodec.cpp b/src/app/modbus/ModbusCodec.cpp
index 5025373..1c6c69b 100644
--- a/src/app/modbus/ModbusCodec.cpp
+++ b/src/app/modbus/ModbusCodec.cpp
@@ -356,6 +356,11 @@ bool ModbusCodec::decode(AduRespond& adu)
     {
     case ModbusFunction::modbusError:
     {
+        if (pktLen != 3)
+        {
+            LM(MODBUS, LW, "ADU decode, unexpected length of packet %u", pktLen);
+            return false;
+        }
         adu.error = fromUint8<ModbusError>(buf.read());
     }
     break;
-- 
2.43.0


From bc0e550bb093c2a281ba64bf62c10963880b78ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:39 +0000
Subject: [PATCH 07/52] fix: answer the pending Modbus client request when the
 received length is invalid

---
 src/app/modbus/client/ModbusClient.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/app/modbus/client/ModbusClient.cpp b/src/app/modbus/client/ModbusClient.cpp
index b0f86a2..00d310d 100644
--- a/src/app/modbus/client/ModbusClient.cpp
+++ b/src/app/modbus/client/ModbusClient.cpp
@@ -117,6 +117,7 @@ Status ModbusClient::receive()
     if (not codec.isAduDataLenValid())
     {
         LM(MODBUS, LW, "Client-%u, ADU data len is invalid", uid);
+        provideRspError(aduStorage.front());
         return Status::done;
     }
 
-- 
2.43.0


From f6a87f0eb0135d229957287f782accfadd51e952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:39 +0000
Subject: [PATCH 08/52] fix: data that no sent Modbus client request waits for
 must not answer a queued one

---
 src/app/modbus/client/ModbusClient.cpp         | 18 ++++++++++++++++++
 src/app/modbus/client/ModbusClient.hpp         |  2 ++
 .../modbus/client/ModbusClientConnected.cpp    |  2 +-
 src/app/modbus/client/ModbusClientSend.cpp     |  2 +-
 4 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/app/modbus/client/ModbusClient.cpp b/src/app/modbus/client/ModbusClient.cpp
index 00d310d..95ac185 100644
--- a/src/app/modbus/client/ModbusClient.cpp
+++ b/src/app/modbus/client/ModbusClient.cpp
@@ -186,6 +186,24 @@ Status ModbusClient::receive()
     return Status::done;
 }
 
+Status ModbusClient::receiveUnexpected()
+{
+    pduBuf.reset();
+    auto const& result = link->receive(pduBuf.end(), pduBuf.capacity());
+    switch (result.status)
+    {
+    case reactor::LinkResult::ok:
+        LM(MODBUS, LW, "Client-%u, received data is unexpected", uid);
+    break;
+    case reactor::LinkResult::na:
+    break;
+    case reactor::LinkResult::closed:
+    case reactor::LinkResult::error:
+        return Status::error;
+    }
+    return Status::noerror;
+}
+
 void ModbusClient::receivePostaction()
 {
     if (aduStorage.empty())
diff --git a/src/app/modbus/client/ModbusClient.hpp b/src/app/modbus/client/ModbusClient.hpp
index b8782ac..e95476e 100644
--- a/src/app/modbus/client/ModbusClient.hpp
+++ b/src/app/modbus/client/ModbusClient.hpp
@@ -57,6 +57,8 @@ public:
 
     Status receive();
 
+    Status receiveUnexpected();
+
     void receivePostaction();
 
     void provideRspTimeout();
diff --git a/src/app/modbus/client/ModbusClientConnected.cpp b/src/app/modbus/client/ModbusClientConnected.cpp
index 6315cd6..cb638bd 100644
--- a/src/app/modbus/client/ModbusClientConnected.cpp
+++ b/src/app/modbus/client/ModbusClientConnected.cpp
@@ -15,7 +15,7 @@ void ModbusClientConnected::onReceiveTransactionReq(ModbusClientFsm& fsm)
 
 void ModbusClientConnected::onDataReceived(ModbusClientFsm& fsm)
 {
-    switch (fsm.getEntity().receive())
+    switch (fsm.getEntity().receiveUnexpected())
     {
     case Status::error:
     {
diff --git a/src/app/modbus/client/ModbusClientSend.cpp b/src/app/modbus/client/ModbusClientSend.cpp
index 28deaac..d90443b 100644
--- a/src/app/modbus/client/ModbusClientSend.cpp
+++ b/src/app/modbus/client/ModbusClientSend.cpp
@@ -19,7 +19,7 @@ void ModbusClientSend::onReceiveTransactionReq(ModbusClientFsm&)
 
 void ModbusClientSend::onDataReceived(ModbusClientFsm& fsm)
 {
-    switch (fsm.getEntity().receive())
+    switch (fsm.getEntity().receiveUnexpected())
     {
     case Status::error:
     {
-- 
2.43.0


From 9a1df6da7dcd637d5da4e208d2cbba5581a7c911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:39 +0000
Subject: [PATCH 09/52] fix: check the number of bytes of a Modbus response
 before copying it

---
 src/app/modbus/server/session/ModbusSession.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/app/modbus/server/session/ModbusSession.cpp b/src/app/modbus/server/session/ModbusSession.cpp
index d34c798..d4fd96d 100644
--- a/src/app/modbus/server/session/ModbusSession.cpp
+++ b/src/app/modbus/server/session/ModbusSession.cpp
@@ -168,6 +168,12 @@ Result ModbusSession::send(MsgModbusAduRsp const& rsp)
         return Result::done;
     }
 
+    if (rsp.numBytes > maxAduLen)
+    {
+        LM(MODBUS, LE, "Session-%u, unexpected number of bytes %u", uid, rsp.numBytes);
+        return Result::done;
+    }
+
     AduRespond aduRsp;
     aduRsp.transactId = rsp.transactId;
     aduRsp.func = (rsp.error != ModbusError::noerror) ? ModbusFunction::modbusError : storedAdu.func;
-- 
2.43.0


From 50aeaeca3f93f5134d582d5fef9f62e20c865948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:25 +0000
Subject: [PATCH 10/52] fix: a frame that can not be decoded must not change
 the stored Modbus request

---
 src/app/modbus/server/session/ModbusSession.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/app/modbus/server/session/ModbusSession.cpp b/src/app/modbus/server/session/ModbusSession.cpp
index d4fd96d..17d62f5 100644
--- a/src/app/modbus/server/session/ModbusSession.cpp
+++ b/src/app/modbus/server/session/ModbusSession.cpp
@@ -129,13 +129,16 @@ Result ModbusSession::receive()
 
     LM(MODBUS, LD, "Session-%u, RX PDU %s", uid, pduBuf.toString().c_str());
 
-    if (not codec.decode(storedAdu))
+    AduRequest adu(storedAduBuf.data());
+    if (not codec.decode(adu))
     {
         LM(MODBUS, LW, "Session-%u, ADU decode error", uid);
         // TODO provide error to client
         return Result::done;
     }
 
+    storedAdu = adu;
+
     reactor::MsgStore<MsgModbusAduReq> msgStore;
     MsgModbusAduReq& req = msgStore.getMsg();
 
-- 
2.43.0


From 55a40164b02048cd70ed727ebe0d600f8e8e01c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:39 +0000
Subject: [PATCH 11/52] fix: ignore a Modbus response that names a session the
 server does not have

---
 src/app/modbus/server/ModbusServer.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/app/modbus/server/ModbusServer.cpp b/src/app/modbus/server/ModbusServer.cpp
index a2f4e22..fb6f054 100644
--- a/src/app/modbus/server/ModbusServer.cpp
+++ b/src/app/modbus/server/ModbusServer.cpp
@@ -39,6 +39,12 @@ void ModbusServer::receive(MsgModbusAduRsp const& rsp)
 {
     LM(MODBUS, LD, "Server-%u, ModbusAduRsp received", id);
 
+    if (rsp.sessionId >= maxNumSession)
+    {
+        LM(MODBUS, LE, "Server-%u, Invalid sessionId, %u", id, rsp.sessionId);
+        return;
+    }
+
     sessionPool.get(rsp.sessionId).receive(rsp);
 }
 
-- 
2.43.0


From efb1cac7bc67f43cd9777e68d0e50c1aab90a784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:23 +0000
Subject: [PATCH 12/52] fix: reading the end of a connection is not a
 successful read of no bytes

---
 src/app/common/reactor/Link.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/app/common/reactor/Link.cpp b/src/app/common/reactor/Link.cpp
index 3b25bc3..53866b8 100644
--- a/src/app/common/reactor/Link.cpp
+++ b/src/app/common/reactor/Link.cpp
@@ -129,6 +129,11 @@ LinkResult Link::receive(std::uint8_t* data, std::size_t len)
         LM(GEN, LI, "Link(%d) read rc: %d errno: %d", fd, rc, errno);
         return {LinkResult::error, 0};
     }
+    else if (0 == rc)
+    {
+        LM(GEN, LI, "Link(%d) closed by peer", fd);
+        return {LinkResult::closed, 0};
+    }
     return {LinkResult::ok, rc};
 }
 
-- 
2.43.0


From f8e59e8fe79891ec8b7ab6b522406e56fd55d9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:23 +0000
Subject: [PATCH 13/52] fix: address and port bytes of a link address are
 unsigned

---
 src/app/common/reactor/types/LinkAddr.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/app/common/reactor/types/LinkAddr.hpp b/src/app/common/reactor/types/LinkAddr.hpp
index 989f54a..f8a8c48 100644
--- a/src/app/common/reactor/types/LinkAddr.hpp
+++ b/src/app/common/reactor/types/LinkAddr.hpp
@@ -17,17 +17,17 @@ struct LinkAddr
 
 inline std::uint16_t ipv4port(LinkAddr const& addr)
 {
-    std::uint16_t a = addr.data[4];
-    std::uint16_t b = addr.data[5];
+    std::uint16_t a = static_cast<std::uint8_t>(addr.data[4]);
+    std::uint16_t b = static_cast<std::uint8_t>(addr.data[5]);
     return a << 8 | b;
 }
 
 inline std::uint32_t ipv4addr(LinkAddr const& addr)
 {
-    std::uint32_t a = addr.data[0];
-    std::uint32_t b = addr.data[1];
-    std::uint32_t c = addr.data[2];
-    std::uint32_t d = addr.data[3];
+    std::uint32_t a = static_cast<std::uint8_t>(addr.data[0]);
+    std::uint32_t b = static_cast<std::uint8_t>(addr.data[1]);
+    std::uint32_t c = static_cast<std::uint8_t>(addr.data[2]);
+    std::uint32_t d = static_cast<std::uint8_t>(addr.data[3]);
     return a << 24 | b << 16 | c << 8 | d;
 }
 
-- 
2.43.0


From ba1ed92647e91669335076e79cd3dc9ff1b95952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:23 +0000
Subject: [PATCH 14/52] fix: refuse a message that does not fit a chunk of the
 message storage

---
 src/app/common/reactor/MsgMemStorage.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/app/common/reactor/MsgMemStorage.cpp b/src/app/common/reactor/MsgMemStorage.cpp
index 8fa30a8..39baad3 100644
--- a/src/app/common/reactor/MsgMemStorage.cpp
+++ b/src/app/common/reactor/MsgMemStorage.cpp
@@ -32,6 +32,10 @@ bool MsgMemStorage::push(const void* data, std::uint64_t len)
 {
     std::lock_guard<std::mutex> guard(mutex);
 
+    if (chunkSize < sizeof(Item) || len > chunkSize - sizeof(Item))
+    {
+        return false;
+    }
     if (freeIds.empty())
     {
         return false;
-- 
2.43.0


From 320d316138bf93bb13c03148981ee68c256cb3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:23 +0000
Subject: [PATCH 15/52] fix: a timer that could not be registered must not keep
 its closed descriptor

---
 src/app/common/reactor/Timer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/app/common/reactor/Timer.cpp b/src/app/common/reactor/Timer.cpp
index 09d3fd8..db62d8b 100644
--- a/src/app/common/reactor/Timer.cpp
+++ b/src/app/common/reactor/Timer.cpp
@@ -40,6 +40,7 @@ void Timer::create()
     if (-1 == epoll.add(*this, EPOLLIN | EPOLLET))
     {
         ::close(fd);
+        fd = -1;
         throw std::runtime_error("fd add");
     }
 }
-- 
2.43.0


From 4ea1c2e23a8d82d2fbb3480e7d2b2764e4744217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:23 +0000
Subject: [PATCH 16/52] fix: return the timer to its pool when it can not be
 created

---
 src/app/common/reactor/Reactor.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/app/common/reactor/Reactor.cpp b/src/app/common/reactor/Reactor.cpp
index b0909cc..52a32a3 100644
--- a/src/app/common/reactor/Reactor.cpp
+++ b/src/app/common/reactor/Reactor.cpp
@@ -62,7 +62,15 @@ TimerPtr Reactor::createTimer(TimerHandler handler)
         throw std::runtime_error("timerPool alloc");
     }
     Timer& timer = timerPool.get(uid);
-    timer.create();
+    try
+    {
+        timer.create();
+    }
+    catch (...)
+    {
+        timerPool.release(uid);
+        throw;
+    }
     timer.setHandler(handler);
     TimerPtr timerPtr(&timer, [this, uid](auto* timer)
     {
-- 
2.43.0


From a103a29a0da391c1236dce72b51cf590132a73de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:23 +0000
Subject: [PATCH 17/52] fix: releasing an acceptor that does not listen must
 not throw

---
 src/app/common/reactor/Acceptor.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/app/common/reactor/Acceptor.cpp b/src/app/common/reactor/Acceptor.cpp
index ea8651e..d76b200 100644
--- a/src/app/common/reactor/Acceptor.cpp
+++ b/src/app/common/reactor/Acceptor.cpp
@@ -82,7 +82,8 @@ void Acceptor::close()
 {
     if (-1 == sfd)
     {
-        throw std::runtime_error("invalid sfd");
+        LM(GEN, LI, "sfd is closed");
+        return;
     }
     LM(GEN, LD, "Close");
     if (-1 == epoll.del(*this))
-- 
2.43.0


From 1dbf5759f4bc7f67cfc9510c1f45c68ee82065be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:23 +0000
Subject: [PATCH 18/52] fix: close the link when the accepted descriptor can
 not be registered

---
 src/app/common/reactor/Acceptor.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/app/common/reactor/Acceptor.cpp b/src/app/common/reactor/Acceptor.cpp
index d76b200..78c897f 100644
--- a/src/app/common/reactor/Acceptor.cpp
+++ b/src/app/common/reactor/Acceptor.cpp
@@ -133,8 +133,7 @@ void Acceptor::accept(LinkInterface& link)
 
     if (-1 == epoll.add(link, EPOLLIN | EPOLLET))
     {
-        ::close(fd);
-        link.setFileDescriptor(-1);
+        link.close();
         throw std::runtime_error("fd add");
     }
 }
-- 
2.43.0


From 34cfa9940f837f1a8f6d555d9ccab489311342ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:23 +0000
Subject: [PATCH 19/52] fix: close the event descriptor when it can not be
 registered

---
 src/app/common/reactor/Event.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/app/common/reactor/Event.cpp b/src/app/common/reactor/Event.cpp
index b8a70ba..0d6393c 100644
--- a/src/app/common/reactor/Event.cpp
+++ b/src/app/common/reactor/Event.cpp
@@ -27,6 +27,7 @@ Event::Event(EpollInterface& epoll_, EventHandler& handler_)
     }
     if (-1 == epoll.add(*this, EPOLLIN | EPOLLET))
     {
+        ::close(fd);
         throw std::runtime_error("fd add");
     }
 }
-- 
2.43.0


From 943c01d7575732228e428783c734a2d1cdfb8df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:23 +0000
Subject: [PATCH 20/52] fix: a partial write of a link is not a success

---
 src/app/common/reactor/Link.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/app/common/reactor/Link.cpp b/src/app/common/reactor/Link.cpp
index 53866b8..a07a0b7 100644
--- a/src/app/common/reactor/Link.cpp
+++ b/src/app/common/reactor/Link.cpp
@@ -104,11 +104,17 @@ int Link::send(void const* data, std::size_t len)
     {
         return -1;
     }
-    if (-1 == ::write(fd, data, len))
+    ssize_t const rc = ::write(fd, data, len);
+    if (-1 == rc)
     {
         LM(GEN, LE, "write errno: %d", errno);
         return -1;
     }
+    if (len != static_cast<std::size_t>(rc))
+    {
+        LM(GEN, LE, "write is incomplete: %zd of %zu", rc, len);
+        return -1;
+    }
     return 1;
 }
 
-- 
2.43.0


From 8f40ba4eea4de5b3dfbe7799a5d280ad40ecb28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:23 +0000
Subject: [PATCH 21/52] fix: data that arrives together with the connection is
 not a link error

---
 src/app/common/reactor/Link.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/app/common/reactor/Link.cpp b/src/app/common/reactor/Link.cpp
index a07a0b7..654e5af 100644
--- a/src/app/common/reactor/Link.cpp
+++ b/src/app/common/reactor/Link.cpp
@@ -163,6 +163,7 @@ void Link::onFileDescriptorEvent(int events)
     }
     break;
     case EPOLLOUT:
+    case EPOLLOUT | EPOLLIN:
     {
         if (-1 == epoll.mod(*this, EPOLLIN | EPOLLET))
         {
-- 
2.43.0


From 70fd2a676a8e64445642dba1a2d10d012625c422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:23 +0000
Subject: [PATCH 22/52] fix: an exception of a message handler must not leave
 the following messages behind

---
 src/app/common/reactor/Reactor.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/app/common/reactor/Reactor.cpp b/src/app/common/reactor/Reactor.cpp
index 52a32a3..04b0f8e 100644
--- a/src/app/common/reactor/Reactor.cpp
+++ b/src/app/common/reactor/Reactor.cpp
@@ -161,7 +161,14 @@ void Reactor::onFdEvent(uint64_t val)
         MsgHandler& handler = handlers[msg.getMsgId()];
         if (handler)
         {
-            handler(msg);
+            try
+            {
+                handler(msg);
+            }
+            catch(const std::exception& e)
+            {
+                std::cerr << e.what() << std::endl;
+            }
         }
         else
         {
-- 
2.43.0


From f0fe916772be42d2d54f734889c03f391a7a7491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:23 +0000
Subject: [PATCH 23/52] fix: an exception while handling one descriptor must
 not lose the events of the others

---
 src/app/common/reactor/Epoll.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/app/common/reactor/Epoll.cpp b/src/app/common/reactor/Epoll.cpp
index 22ca688..3d7cd7c 100644
--- a/src/app/common/reactor/Epoll.cpp
+++ b/src/app/common/reactor/Epoll.cpp
@@ -68,7 +68,14 @@ void Epoll::wait()
             throw std::runtime_error("invalid ptr");
         }
         FileDescriptorInterface& fd = *static_cast<FileDescriptorInterface*>(events[n].data.ptr);
-        fd.onFileDescriptorEvent(events[n].events);
+        try
+        {
+            fd.onFileDescriptorEvent(events[n].events);
+        }
+        catch(const std::exception& e)
+        {
+            std::cerr << e.what() << std::endl;
+        }
     }
 }
 
-- 
2.43.0


From ce2c6d298ef3a465519a3226243fe0cddcc58b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:54 +0000
Subject: [PATCH 24/52] fix: a long log text must not overflow the log buffer

---
 src/app/common/logger/Logger.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/app/common/logger/Logger.hpp b/src/app/common/logger/Logger.hpp
index 6c7f6f7..cd9e4d5 100644
--- a/src/app/common/logger/Logger.hpp
+++ b/src/app/common/logger/Logger.hpp
@@ -35,7 +35,7 @@ enum class LogLevel
     if (app::LogLevel::LM_LEVEL >= app::Logger::getInst().getTaskLogLevel(app::LogTask::LM_TASK)) \
     {\
         char temporary___[1024];\
-        sprintf(temporary___, __VA_ARGS__);\
+        snprintf(temporary___, sizeof(temporary___), __VA_ARGS__);\
         app::Logger::getInst().dispatch(temporary___, app::LogLevel::LM_LEVEL, app::LogTask::LM_TASK, __FILE__, __LINE__);\
     }\
 }
-- 
2.43.0


From 9ccac45d47258d54dc5a46ac924fc88ca9f8ff97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:08 +0000
Subject: [PATCH 25/52] fix: a failed link ends the Modbus server session

---
 src/app/modbus/server/session/ModbusSession.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/app/modbus/server/session/ModbusSession.cpp b/src/app/modbus/server/session/ModbusSession.cpp
index 17d62f5..444fb88 100644
--- a/src/app/modbus/server/session/ModbusSession.cpp
+++ b/src/app/modbus/server/session/ModbusSession.cpp
@@ -1,6 +1,7 @@
 #include "ModbusSession.hpp"
 #include "LinkInterface.hpp"
 #include "ModbusSessionHandler.hpp"
+#include "ModbusSessionInit.hpp"
 #include "ModbusCodec.hpp"
 #include "AduRespond.hpp"
 #include "ModbusSender.hpp"
@@ -53,9 +54,12 @@ void ModbusSession::onLinkEvent(reactor::LinkEvent ev)
         fsm.getState().onDataReceived(fsm);
     break;
     case reactor::LinkEvent::connected:
-    case reactor::LinkEvent::error:
         LM(MODBUS, LE, "Session-%u, unexpected", uid);
     break;
+    case reactor::LinkEvent::error:
+        LM(MODBUS, LE, "Session-%u, link error", uid);
+        fsm.transit<ModbusSessionInit>();
+    break;
     }
 }
 
-- 
2.43.0


From 1c84ce440ce27006da7f7f86aec127f0c4c0715a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:23 +0000
Subject: [PATCH 26/52] fix: reading or writing beyond the end of an SDU must
 not access memory outside of it

---
 src/app/common/ua/common/OpcUaSduBuffer.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/app/common/ua/common/OpcUaSduBuffer.cpp b/src/app/common/ua/common/OpcUaSduBuffer.cpp
index d22456f..921d32f 100644
--- a/src/app/common/ua/common/OpcUaSduBuffer.cpp
+++ b/src/app/common/ua/common/OpcUaSduBuffer.cpp
@@ -1,6 +1,8 @@
 #include "OpcUaSduBuffer.hpp"
 #include "Logger.hpp"
 
+#include <stdexcept>
+
 namespace app::ua
 {
 
@@ -17,11 +19,19 @@ OpcUaSduBuffer::~OpcUaSduBuffer()
 void OpcUaSduBuffer::write(std::uint8_t val)
 {
     //LM(GEN, LE, "end: %u, wr: %d", head, (int)val);
+    if (head >= maxPacketLen)
+    {
+        throw std::runtime_error("SDU buffer is full");
+    }
     packet[head++] = val;
 }
 
 std::uint8_t OpcUaSduBuffer::read()
 {
+    if (tail >= head)
+    {
+        throw std::runtime_error("SDU buffer has no more data");
+    }
     auto const& rd = packet[tail];
     //LM(GEN, LE, "tail: %u, rd: %d", tail, (int)rd);
     tail++;
-- 
2.43.0


From 0b90a405534ba701dd5ce40fd09b8fa231cbe2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:23 +0000
Subject: [PATCH 27/52] fix: check the length of a received string against the
 received data

---
 src/app/common/ua/common/OpcUaBinaryCodec.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/app/common/ua/common/OpcUaBinaryCodec.cpp b/src/app/common/ua/common/OpcUaBinaryCodec.cpp
index 3b0efa0..77ba893 100644
--- a/src/app/common/ua/common/OpcUaBinaryCodec.cpp
+++ b/src/app/common/ua/common/OpcUaBinaryCodec.cpp
@@ -2,6 +2,7 @@
 #include "Logger.hpp"
 
 #include <cstring>
+#include <stdexcept>
 
 namespace app::ua
 {
@@ -259,6 +260,10 @@ OpcUaBinaryCodec& operator>>(OpcUaBinaryCodec& s, String& val)
     {
         return s;
     }
+    if (len < 0 || len > s.buf().end() - s.buf().begin())
+    {
+        throw std::runtime_error("Invalid length");
+    }
     val.resize(len);
     for (std::int32_t i = 0; i < len; ++i)
     {
@@ -327,6 +332,10 @@ OpcUaBinaryCodec& operator>>(OpcUaBinaryCodec& s, ByteString& val)
         val.clear();
         return s;
     }
+    if (len < 0 || len > s.buf().end() - s.buf().begin())
+    {
+        throw std::runtime_error("Invalid length");
+    }
     val.resize(len);
     for (std::int32_t i = 0; i < len; ++i)
     {
-- 
2.43.0


From a7f022d89086fda092c8475c1bd5cda5c40bc98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:44 +0000
Subject: [PATCH 28/52] fix: a null array is an empty one, and the length of a
 received array is checked against the received data

---
 src/app/common/ua/common/OpcUaBinaryCodec.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/app/common/ua/common/OpcUaBinaryCodec.hpp b/src/app/common/ua/common/OpcUaBinaryCodec.hpp
index 5a0b704..31904bc 100644
--- a/src/app/common/ua/common/OpcUaBinaryCodec.hpp
+++ b/src/app/common/ua/common/OpcUaBinaryCodec.hpp
@@ -1,5 +1,7 @@
 #pragma once
 
+#include <stdexcept>
+
 #include "OpcUaSduBuffer.hpp"
 #include "Boolean.hpp"
 #include "SByte.hpp"
@@ -241,6 +243,15 @@ OpcUaBinaryCodec& operator>>(OpcUaBinaryCodec& s, DynamicArray<T>& arr)
 {
     Int32 arrayLength;
     s >> arrayLength;
+    if (arrayLength < 0)
+    {
+        arr.clear();
+        return s;
+    }
+    if (arrayLength > s.buf().end() - s.buf().begin())
+    {
+        throw std::runtime_error("Invalid array length");
+    }
     arr.resize(arrayLength);
     for (auto& it : arr)
     {
-- 
2.43.0


From 050e840acbd2813e81732fb2ecd4e032904c52ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:44 +0000
Subject: [PATCH 29/52] fix: a node id or variant that can not be decoded must
 not terminate the program

---
 src/app/common/ua/common/OpcUaBinaryCodec.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/app/common/ua/common/OpcUaBinaryCodec.cpp b/src/app/common/ua/common/OpcUaBinaryCodec.cpp
index 77ba893..a642a22 100644
--- a/src/app/common/ua/common/OpcUaBinaryCodec.cpp
+++ b/src/app/common/ua/common/OpcUaBinaryCodec.cpp
@@ -407,7 +407,7 @@ OpcUaBinaryCodec& operator>>(OpcUaBinaryCodec& s, NodeId& nodeId)
     }
     break;
     default:
-        throw;
+        throw std::runtime_error("Unexpected NodeId encoding");
     }
     return s;
 }
@@ -453,7 +453,7 @@ OpcUaBinaryCodec& operator<<(OpcUaBinaryCodec& s, NodeId const& nodeId)
     }
     else
     {
-        throw;
+        throw std::runtime_error("Unexpected NodeId value");
     }
     return s;
 }
@@ -781,7 +781,7 @@ OpcUaBinaryCodec& operator>>(OpcUaBinaryCodec& s, Variant& variant)
         }
         break;
         default:
-            throw;
+            throw std::runtime_error("Unexpected Variant type");
         }
         return s;
     }
-- 
2.43.0


From e25bea4fd2862d792632b4e87e4b670413e76ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:44 +0000
Subject: [PATCH 30/52] fix: a node id in the two byte form has namespace 0

---
 src/app/common/ua/common/OpcUaBinaryCodec.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/app/common/ua/common/OpcUaBinaryCodec.cpp b/src/app/common/ua/common/OpcUaBinaryCodec.cpp
index a642a22..f41580b 100644
--- a/src/app/common/ua/common/OpcUaBinaryCodec.cpp
+++ b/src/app/common/ua/common/OpcUaBinaryCodec.cpp
@@ -374,6 +374,7 @@ OpcUaBinaryCodec& operator>>(OpcUaBinaryCodec& s, NodeId& nodeId)
 
         Byte identifier;
         s >> identifier;
+        nodeId.namespaceIndex = 0;
         emplace<UInt32>(nodeId.value) = identifier;
     }
     break;
-- 
2.43.0


From 4b319955eb85bda2b080cc53890694df8fc13cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:44 +0000
Subject: [PATCH 31/52] fix: set the flags of an expanded node id in its own
 encoding byte, not in the first byte of the message

---
 src/app/common/ua/common/OpcUaBinaryCodec.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/app/common/ua/common/OpcUaBinaryCodec.cpp b/src/app/common/ua/common/OpcUaBinaryCodec.cpp
index f41580b..9f36631 100644
--- a/src/app/common/ua/common/OpcUaBinaryCodec.cpp
+++ b/src/app/common/ua/common/OpcUaBinaryCodec.cpp
@@ -614,7 +614,7 @@ OpcUaBinaryCodec& operator>>(OpcUaBinaryCodec& s, ExpandedNodeId& data)
 
 OpcUaBinaryCodec& operator<<(OpcUaBinaryCodec& s, ExpandedNodeId const& data)
 {
-    uint8_t& encodingMask = *s.buf().begin();
+    uint8_t& encodingMask = *s.buf().end();
     s << data.nodeId;
     if (data.encodingMask() & 0x1)
     {
-- 
2.43.0


From 93a5141c70437e5c4f4933fdffb38a2074538799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:44 +0000
Subject: [PATCH 32/52] fix: a received null string is empty, whatever the
 string was before

---
 src/app/common/ua/common/OpcUaBinaryCodec.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/app/common/ua/common/OpcUaBinaryCodec.cpp b/src/app/common/ua/common/OpcUaBinaryCodec.cpp
index 9f36631..98ab5a3 100644
--- a/src/app/common/ua/common/OpcUaBinaryCodec.cpp
+++ b/src/app/common/ua/common/OpcUaBinaryCodec.cpp
@@ -258,6 +258,7 @@ OpcUaBinaryCodec& operator>>(OpcUaBinaryCodec& s, String& val)
     s >> len;
     if (len == -1)
     {
+        val.clear();
         return s;
     }
     if (len < 0 || len > s.buf().end() - s.buf().begin())
-- 
2.43.0


From 06a68b0d2f7b1eb316df9df777f07563f58c6cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:44 +0000
Subject: [PATCH 33/52] fix: compare variants without array dimensions

---
 src/app/common/ua/common/types/Variant.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/app/common/ua/common/types/Variant.hpp b/src/app/common/ua/common/types/Variant.hpp
index 9db8968..076bda9 100644
--- a/src/app/common/ua/common/types/Variant.hpp
+++ b/src/app/common/ua/common/types/Variant.hpp
@@ -92,7 +92,7 @@ struct Variant : public StructType<DataTypeId::Variant>
         {
             cmpValue = not (this->value || rhs.value);
         }
-        bool cmpArrayDimensions = *this->arrayDimensions == *rhs.arrayDimensions;
+        bool cmpArrayDimensions = this->arrayDimensions == rhs.arrayDimensions;
         return cmpValue && cmpArrayDimensions;
     }
     std::uint8_t encodingMask() const
-- 
2.43.0


From c256d45098b6888d9efac7e7648fd33e92a928dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:44 +0000
Subject: [PATCH 34/52] fix: decode the arrays of a variant that can be encoded

---
 src/app/common/ua/common/OpcUaBinaryCodec.cpp | 70 +++++++++++++++++++
 1 file changed, 70 insertions(+)

diff --git a/src/app/common/ua/common/OpcUaBinaryCodec.cpp b/src/app/common/ua/common/OpcUaBinaryCodec.cpp
index 98ab5a3..2964a3a 100644
--- a/src/app/common/ua/common/OpcUaBinaryCodec.cpp
+++ b/src/app/common/ua/common/OpcUaBinaryCodec.cpp
@@ -782,6 +782,76 @@ OpcUaBinaryCodec& operator>>(OpcUaBinaryCodec& s, Variant& variant)
             s >> variant.emplace<DynamicArray<UInt32>>();
         }
         break;
+        case DataTypeId::Int64:
+        {
+            s >> variant.emplace<DynamicArray<Int64>>();
+        }
+        break;
+        case DataTypeId::UInt64:
+        {
+            s >> variant.emplace<DynamicArray<UInt64>>();
+        }
+        break;
+        case DataTypeId::Float:
+        {
+            s >> variant.emplace<DynamicArray<Float>>();
+        }
+        break;
+        case DataTypeId::Double:
+        {
+            s >> variant.emplace<DynamicArray<Double>>();
+        }
+        break;
+        case DataTypeId::String:
+        {
+            s >> variant.emplace<DynamicArray<String>>();
+        }
+        break;
+        case DataTypeId::DateTime:
+        {
+            s >> variant.emplace<DynamicArray<DateTime>>();
+        }
+        break;
+        case DataTypeId::Guid:
+        {
+            s >> variant.emplace<DynamicArray<Guid>>();
+        }
+        break;
+        case DataTypeId::ByteString:
+        {
+            s >> variant.emplace<DynamicArray<ByteString>>();
+        }
+        break;
+        case DataTypeId::NodeId:
+        {
+            s >> variant.emplace<DynamicArray<NodeId>>();
+        }
+        break;
+        case DataTypeId::ExpandedNodeId:
+        {
+            s >> variant.emplace<DynamicArray<ExpandedNodeId>>();
+        }
+        break;
+        case DataTypeId::StatusCode:
+        {
+            s >> variant.emplace<DynamicArray<StatusCode>>();
+        }
+        break;
+        case DataTypeId::QualifiedName:
+        {
+            s >> variant.emplace<DynamicArray<QualifiedName>>();
+        }
+        break;
+        case DataTypeId::LocalizedText:
+        {
+            s >> variant.emplace<DynamicArray<LocalizedText>>();
+        }
+        break;
+        case DataTypeId::ExtensionObject:
+        {
+            s >> variant.emplace<DynamicArray<ExtensionObject>>();
+        }
+        break;
         default:
             throw std::runtime_error("Unexpected Variant type");
         }
-- 
2.43.0


From cc9f707f0d833b8fc0258daa3d0e6428448d65ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:57 +0000
Subject: [PATCH 35/52] fix: forward the received payload only, and only one
 that fits a message

---
 .../ua/transport/server/UaTcpConnection.cpp   | 27 ++++++++++++++-----
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/app/ua/transport/server/UaTcpConnection.cpp b/src/app/ua/transport/server/UaTcpConnection.cpp
index 5d705b3..e7ce679 100644
--- a/src/app/ua/transport/server/UaTcpConnection.cpp
+++ b/src/app/ua/transport/server/UaTcpConnection.cpp
@@ -311,8 +311,13 @@ UaTcpConnection::Result UaTcpConnection::receiveSecuredMessage()
         msg.connectionId = connectionId;
         msg.secureChannelId = hdr.secureChannelId;
         msg.chunkType = UaChunkType::fromUint8(hdr.isFinal);
-        msg.length = rxBuffer.size();
-        std::memcpy(msg.data, rxBuffer.begin(), rxBuffer.size());
+        msg.length = rxBuffer.end() - rxBuffer.begin();
+        if (msg.size() > reactor::maxMsgSize)
+        {
+            LM(UATL, LE, "Uid-%u, received packet is too long", connectionId);
+            return Result::error;
+        }
+        std::memcpy(msg.data, rxBuffer.begin(), msg.length);
         Sender::sendMsg(msgStore);
     }
     break;
@@ -323,8 +328,13 @@ UaTcpConnection::Result UaTcpConnection::receiveSecuredMessage()
         msg.connectionId = connectionId;
         msg.secureChannelId = hdr.secureChannelId;
         msg.chunkType = UaChunkType::fromUint8(hdr.isFinal);
-        msg.length = rxBuffer.size();
-        std::memcpy(msg.data, rxBuffer.begin(), rxBuffer.size());
+        msg.length = rxBuffer.end() - rxBuffer.begin();
+        if (msg.size() > reactor::maxMsgSize)
+        {
+            LM(UATL, LE, "Uid-%u, received packet is too long", connectionId);
+            return Result::error;
+        }
+        std::memcpy(msg.data, rxBuffer.begin(), msg.length);
         Sender::sendMsg(msgStore);
     }
     break;
@@ -340,8 +350,13 @@ UaTcpConnection::Result UaTcpConnection::receiveSecuredMessage()
         msg.connectionId = connectionId;
         msg.secureChannelId = hdr.secureChannelId;
         msg.chunkType = UaChunkType::fromUint8(hdr.isFinal);
-        msg.length = rxBuffer.size();
-        std::memcpy(msg.data, rxBuffer.begin(), rxBuffer.size());
+        msg.length = rxBuffer.end() - rxBuffer.begin();
+        if (msg.size() > reactor::maxMsgSize)
+        {
+            LM(UATL, LE, "Uid-%u, received packet is too long", connectionId);
+            return Result::error;
+        }
+        std::memcpy(msg.data, rxBuffer.begin(), msg.length);
         Sender::sendMsg(msgStore);
     }
     break;
-- 
2.43.0


From ab8e9876250d7ab77be64e5591e9d87207ef3a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:57 +0000
Subject: [PATCH 36/52] fix: forward the received payload only from the secure
 channel

---
 src/app/ua/securechannel/channel/UaServerSecureChannel.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/app/ua/securechannel/channel/UaServerSecureChannel.cpp b/src/app/ua/securechannel/channel/UaServerSecureChannel.cpp
index fb461e9..c509882 100644
--- a/src/app/ua/securechannel/channel/UaServerSecureChannel.cpp
+++ b/src/app/ua/securechannel/channel/UaServerSecureChannel.cpp
@@ -205,8 +205,8 @@ UaServerSecureChannel::Result UaServerSecureChannel::receive(MsgUaSecuredMessage
     msgRsp.hdr.secureChannelId = secureChannelId;
     msgRsp.hdr.requestId = rxSeqHdr.requestId;
     msgRsp.hdr.sessionId = sessionId ? *sessionId : invalidSuid;
-    msgRsp.length = rx.size();
-    std::memcpy(&msgRsp.data[0], rx.begin(), rx.size());
+    msgRsp.length = rx.end() - rx.begin();
+    std::memcpy(&msgRsp.data[0], rx.begin(), msgRsp.length);
     Sender::sendMsg(msgStore);
 
     return Result::done;
-- 
2.43.0


From 49fa73fab096ab59f47c983959fcba19e5db9f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:57 +0000
Subject: [PATCH 37/52] fix: whether a message is accepted must not depend on
 how the transport fragments it

---
 src/app/common/ua/protocols/connection/OpcUaConnection.cpp | 3 +--
 src/app/ua/transport/server/UaTcpConnection.cpp            | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/app/common/ua/protocols/connection/OpcUaConnection.cpp b/src/app/common/ua/protocols/connection/OpcUaConnection.cpp
index b98e635..a00946b 100644
--- a/src/app/common/ua/protocols/connection/OpcUaConnection.cpp
+++ b/src/app/common/ua/protocols/connection/OpcUaConnection.cpp
@@ -70,8 +70,7 @@ void OpcUaConnection::receivePreaction()
 
 OpcUaConnection::Result OpcUaConnection::receive()
 {
-    // TODO REMOVE MN
-    if (rx.size() > 1024)
+    if (rx.capacity() == 0)
     {
         LM(UA, LW, "Received packet is invalid");
         return Result::error;
diff --git a/src/app/ua/transport/server/UaTcpConnection.cpp b/src/app/ua/transport/server/UaTcpConnection.cpp
index e7ce679..bf5032f 100644
--- a/src/app/ua/transport/server/UaTcpConnection.cpp
+++ b/src/app/ua/transport/server/UaTcpConnection.cpp
@@ -175,8 +175,7 @@ void UaTcpConnection::receivePreaction()
 
 UaTcpConnection::Result UaTcpConnection::receive()
 {
-    // TODO REMOVE MN
-    if (rxBuffer.size() > 1024)
+    if (rxBuffer.capacity() == 0)
     {
         LM(UATL, LE, "Uid-%u, received packet is invalid", connectionId);
         return Result::error;
-- 
2.43.0


From 7473fbfd071b47f2e361725f817ac2c5cada9ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:57 +0000
Subject: [PATCH 38/52] fix: a connection begins with a well formed hello
 message

---
 .../ua/transport/server/UaTcpConnection.cpp   | 21 ++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/app/ua/transport/server/UaTcpConnection.cpp b/src/app/ua/transport/server/UaTcpConnection.cpp
index bf5032f..df008ba 100644
--- a/src/app/ua/transport/server/UaTcpConnection.cpp
+++ b/src/app/ua/transport/server/UaTcpConnection.cpp
@@ -226,18 +226,25 @@ UaTcpConnection::Result UaTcpConnection::receiveHello()
         return UaTcpConnection::Result::error;
     }
 
-/*
-    if (UaSecMsgType::opn != fromString(rxBuffer.begin()))
+    if (not isMsgHello(rxBuffer.begin()))
     {
         LM(UATL, LE, "Uid-%u, unexpected packet type", connectionId);
         return Result::error;
     }
-*/
-    OpcUaBinaryCodec codec(rxBuffer);
 
-    MessageHeader hdr;
-    HelloMessage hello;
-    codec >> hdr >> hello;
+    try
+    {
+        OpcUaBinaryCodec codec(rxBuffer);
+
+        MessageHeader hdr;
+        HelloMessage hello;
+        codec >> hdr >> hello;
+    }
+    catch (std::exception const& e)
+    {
+        LM(UATL, LE, "Uid-%u, invalid HelloMessage: %s", connectionId, e.what());
+        return Result::error;
+    }
 
     LM(UATL, LD, "Uid-%u, received HelloMessage", connectionId);
 
-- 
2.43.0


From 16007b205ec69185c7dfb39bc94a906cce357b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:57 +0000
Subject: [PATCH 39/52] fix: a message without a complete header ends the
 connection

---
 src/app/ua/transport/server/UaTcpConnection.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/app/ua/transport/server/UaTcpConnection.cpp b/src/app/ua/transport/server/UaTcpConnection.cpp
index df008ba..ad83e7c 100644
--- a/src/app/ua/transport/server/UaTcpConnection.cpp
+++ b/src/app/ua/transport/server/UaTcpConnection.cpp
@@ -295,6 +295,12 @@ UaTcpConnection::Result UaTcpConnection::receiveSecuredMessage()
     case UaTcpConnection::Result::error:
         return UaTcpConnection::Result::error;
     }
+    if (rxBuffer.size() < messageHeaderSize + sizeof(UInt32))
+    {
+        LM(UATL, LE, "Uid-%u, received packet is too short", connectionId);
+        return Result::error;
+    }
+
     auto msgType = fromString(rxBuffer.begin());
 
     OpcUaBinaryCodec codec(rxBuffer);
-- 
2.43.0


From d4ec88f78b18da0f1f582fa8ce4e78984f74c7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:57 +0000
Subject: [PATCH 40/52] fix: a handshake message that can not be decoded ends
 the connection

---
 .../ua/protocols/connection/ClientConnection.cpp | 16 ++++++++++++----
 .../ua/protocols/connection/ServerConnection.cpp | 16 ++++++++++++----
 2 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/app/common/ua/protocols/connection/ClientConnection.cpp b/src/app/common/ua/protocols/connection/ClientConnection.cpp
index f5f274a..5cba2e9 100644
--- a/src/app/common/ua/protocols/connection/ClientConnection.cpp
+++ b/src/app/common/ua/protocols/connection/ClientConnection.cpp
@@ -74,11 +74,19 @@ OpcUaConnection::Result ClientConnection::receiveAck()
 
     }
 
-    OpcUaBinaryCodec codec(getRxBuffer());
+    try
+    {
+        OpcUaBinaryCodec codec(getRxBuffer());
 
-    MessageHeader hdr;
-    AcknowledgeMessage hello;
-    codec >> hdr >> hello;
+        MessageHeader hdr;
+        AcknowledgeMessage hello;
+        codec >> hdr >> hello;
+    }
+    catch (std::exception const& e)
+    {
+        LM(UA, LW, "ClientConnection-0, invalid AcknowledgeMessage: %s", e.what());
+        return OpcUaConnection::Result::error;
+    }
 
     LM(UA, LD, "ClientConnection-0, received AcknowledgeMessage");
 
diff --git a/src/app/common/ua/protocols/connection/ServerConnection.cpp b/src/app/common/ua/protocols/connection/ServerConnection.cpp
index 3c91233..aa49c04 100644
--- a/src/app/common/ua/protocols/connection/ServerConnection.cpp
+++ b/src/app/common/ua/protocols/connection/ServerConnection.cpp
@@ -99,11 +99,19 @@ OpcUaConnection::Result ServerConnection::receiveHello()
         return Result::error;
     }
 
-    OpcUaBinaryCodec codec(getRxBuffer());
+    try
+    {
+        OpcUaBinaryCodec codec(getRxBuffer());
 
-    MessageHeader hdr;
-    HelloMessage hello;
-    codec >> hdr >> hello;
+        MessageHeader hdr;
+        HelloMessage hello;
+        codec >> hdr >> hello;
+    }
+    catch (std::exception const& e)
+    {
+        LM(UA, LW, "ServerConnection-0, invalid HelloMessage: %s", e.what());
+        return OpcUaConnection::Result::error;
+    }
 
     return OpcUaConnection::Result::done;
 }
-- 
2.43.0


From 61519cedc6bbcd00ad17c95e9d28eb83ea0e80f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:57 +0000
Subject: [PATCH 41/52] fix: an unknown entity id must not access memory
 outside of the pool

---
 src/app/common/ua/common/UaEntityPool.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/app/common/ua/common/UaEntityPool.hpp b/src/app/common/ua/common/UaEntityPool.hpp
index 3442a3f..9b822cd 100644
--- a/src/app/common/ua/common/UaEntityPool.hpp
+++ b/src/app/common/ua/common/UaEntityPool.hpp
@@ -52,7 +52,7 @@ public:
 
     ENTITY& get(EntityId uid)
     {
-        return *(pool[uid - 1]);
+        return *(pool.at(uid - 1));
     }
 
 private:
-- 
2.43.0


From 574608c46a2d5ca518e0453f08819fc16de4bb35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:03 +0000
Subject: [PATCH 42/52] fix: a failed link ends the OPC UA connection

---
 .../ua/protocols/connection/ClientConnectionConnected.cpp  | 7 +++++++
 .../ua/protocols/connection/ClientConnectionConnected.hpp  | 2 ++
 .../ua/protocols/connection/ClientConnectionReceiveAck.cpp | 7 +++++++
 .../ua/protocols/connection/ClientConnectionReceiveAck.hpp | 2 ++
 .../ua/protocols/connection/ServerConnectionConnected.cpp  | 7 +++++++
 .../ua/protocols/connection/ServerConnectionConnected.hpp  | 2 ++
 .../protocols/connection/ServerConnectionReceiveHello.cpp  | 7 +++++++
 .../protocols/connection/ServerConnectionReceiveHello.hpp  | 2 ++
 src/app/ua/transport/server/UaTcpConnectionConnected.cpp   | 6 ++++++
 src/app/ua/transport/server/UaTcpConnectionConnected.hpp   | 2 ++
 .../ua/transport/server/UaTcpConnectionReceiveHello.cpp    | 5 +++++
 .../ua/transport/server/UaTcpConnectionReceiveHello.hpp    | 2 ++
 12 files changed, 51 insertions(+)

diff --git a/src/app/common/ua/protocols/connection/ClientConnectionConnected.cpp b/src/app/common/ua/protocols/connection/ClientConnectionConnected.cpp
index 0353470..4159ec4 100644
--- a/src/app/common/ua/protocols/connection/ClientConnectionConnected.cpp
+++ b/src/app/common/ua/protocols/connection/ClientConnectionConnected.cpp
@@ -40,6 +40,13 @@ void ClientConnectionConnected::onClose(ClientConnection& fsm)
     fsm.transit<ClientConnectionInit>();
 }
 
+void ClientConnectionConnected::onError(ClientConnection& fsm)
+{
+    fsm.closeLink();
+    fsm.notifyError();
+    fsm.transit<ClientConnectionInit>();
+}
+
 void ClientConnectionConnected::onTimer(ClientConnection& fsm)
 {
     fsm.closeLink();
diff --git a/src/app/common/ua/protocols/connection/ClientConnectionConnected.hpp b/src/app/common/ua/protocols/connection/ClientConnectionConnected.hpp
index 7429905..5a98495 100644
--- a/src/app/common/ua/protocols/connection/ClientConnectionConnected.hpp
+++ b/src/app/common/ua/protocols/connection/ClientConnectionConnected.hpp
@@ -18,6 +18,8 @@ public:
 
     void onClose(ClientConnection&) final;
 
+    void onError(ClientConnection&) final;
+
     void onTimer(ClientConnection&) final;
 
     void onExit(ClientConnection&) final;
diff --git a/src/app/common/ua/protocols/connection/ClientConnectionReceiveAck.cpp b/src/app/common/ua/protocols/connection/ClientConnectionReceiveAck.cpp
index 8bc6483..9529372 100644
--- a/src/app/common/ua/protocols/connection/ClientConnectionReceiveAck.cpp
+++ b/src/app/common/ua/protocols/connection/ClientConnectionReceiveAck.cpp
@@ -33,6 +33,13 @@ void ClientConnectionReceiveAck::onDataReceived(ClientConnection& fsm)
     }
 }
 
+void ClientConnectionReceiveAck::onError(ClientConnection& fsm)
+{
+    fsm.closeLink();
+    fsm.notifyError();
+    fsm.transit<ClientConnectionInit>();
+}
+
 void ClientConnectionReceiveAck::onTimer(ClientConnection& fsm)
 {
     fsm.closeLink();
diff --git a/src/app/common/ua/protocols/connection/ClientConnectionReceiveAck.hpp b/src/app/common/ua/protocols/connection/ClientConnectionReceiveAck.hpp
index 3e11196..5dcb312 100644
--- a/src/app/common/ua/protocols/connection/ClientConnectionReceiveAck.hpp
+++ b/src/app/common/ua/protocols/connection/ClientConnectionReceiveAck.hpp
@@ -16,6 +16,8 @@ public:
 
     void onDataReceived(ClientConnection&) final;
 
+    void onError(ClientConnection&) final;
+
     void onTimer(ClientConnection&) final;
 
     void onExit(ClientConnection&) final;
diff --git a/src/app/common/ua/protocols/connection/ServerConnectionConnected.cpp b/src/app/common/ua/protocols/connection/ServerConnectionConnected.cpp
index a48e05f..5ef7dab 100644
--- a/src/app/common/ua/protocols/connection/ServerConnectionConnected.cpp
+++ b/src/app/common/ua/protocols/connection/ServerConnectionConnected.cpp
@@ -40,6 +40,13 @@ void ServerConnectionConnected::onClose(ServerConnection& fsm)
     fsm.transit<ServerConnectionInit>();
 }
 
+void ServerConnectionConnected::onError(ServerConnection& fsm)
+{
+    fsm.closeLink();
+    fsm.notifyError();
+    fsm.transit<ServerConnectionInit>();
+}
+
 void ServerConnectionConnected::onTimer(ServerConnection& fsm)
 {
     fsm.closeLink();
diff --git a/src/app/common/ua/protocols/connection/ServerConnectionConnected.hpp b/src/app/common/ua/protocols/connection/ServerConnectionConnected.hpp
index 4e8cdec..16af096 100644
--- a/src/app/common/ua/protocols/connection/ServerConnectionConnected.hpp
+++ b/src/app/common/ua/protocols/connection/ServerConnectionConnected.hpp
@@ -18,6 +18,8 @@ public:
 
     void onClose(ServerConnection&) final;
 
+    void onError(ServerConnection&) final;
+
     void onTimer(ServerConnection&) final;
 
     void onExit(ServerConnection&) final;
diff --git a/src/app/common/ua/protocols/connection/ServerConnectionReceiveHello.cpp b/src/app/common/ua/protocols/connection/ServerConnectionReceiveHello.cpp
index d000581..acf45da 100644
--- a/src/app/common/ua/protocols/connection/ServerConnectionReceiveHello.cpp
+++ b/src/app/common/ua/protocols/connection/ServerConnectionReceiveHello.cpp
@@ -52,6 +52,13 @@ void ServerConnectionReceiveHello::onDataReceived(ServerConnection& fsm)
     }
 }
 
+void ServerConnectionReceiveHello::onError(ServerConnection& fsm)
+{
+    fsm.closeLink();
+    fsm.notifyError();
+    fsm.transit<ServerConnectionInit>();
+}
+
 void ServerConnectionReceiveHello::onTimer(ServerConnection& fsm)
 {
     LM(UA, LW, "onTimer");
diff --git a/src/app/common/ua/protocols/connection/ServerConnectionReceiveHello.hpp b/src/app/common/ua/protocols/connection/ServerConnectionReceiveHello.hpp
index 827c39b..e45c686 100644
--- a/src/app/common/ua/protocols/connection/ServerConnectionReceiveHello.hpp
+++ b/src/app/common/ua/protocols/connection/ServerConnectionReceiveHello.hpp
@@ -16,6 +16,8 @@ public:
 
     void onDataReceived(ServerConnection&) final;
 
+    void onError(ServerConnection&) final;
+
     void onTimer(ServerConnection&) final;
 
     void onExit(ServerConnection&) final;
diff --git a/src/app/ua/transport/server/UaTcpConnectionConnected.cpp b/src/app/ua/transport/server/UaTcpConnectionConnected.cpp
index 0157c5c..a3e5d77 100644
--- a/src/app/ua/transport/server/UaTcpConnectionConnected.cpp
+++ b/src/app/ua/transport/server/UaTcpConnectionConnected.cpp
@@ -89,6 +89,12 @@ void UaTcpConnectionConnected::onReceive(UaTcpConnection& fsm, MsgUaConnectionRe
     fsm.transit<UaTcpConnectionInit>();
 }
 
+void UaTcpConnectionConnected::onError(UaTcpConnection& fsm)
+{
+    fsm.sendUaConnectionReleaseInd();
+    fsm.transit<UaTcpConnectionInit>();
+}
+
 void UaTcpConnectionConnected::onTimer(UaTcpConnection& fsm)
 {
     fsm.sendUaConnectionReleaseInd();
diff --git a/src/app/ua/transport/server/UaTcpConnectionConnected.hpp b/src/app/ua/transport/server/UaTcpConnectionConnected.hpp
index 2147924..cd71e85 100644
--- a/src/app/ua/transport/server/UaTcpConnectionConnected.hpp
+++ b/src/app/ua/transport/server/UaTcpConnectionConnected.hpp
@@ -24,6 +24,8 @@ public:
 
     void onReceive(UaTcpConnection&, MsgUaConnectionReleaseReq const&) final;
 
+    void onError(UaTcpConnection&) final;
+
     void onTimer(UaTcpConnection&) final;
 
     void onExit(UaTcpConnection&) final;
diff --git a/src/app/ua/transport/server/UaTcpConnectionReceiveHello.cpp b/src/app/ua/transport/server/UaTcpConnectionReceiveHello.cpp
index 216340d..ef99a73 100644
--- a/src/app/ua/transport/server/UaTcpConnectionReceiveHello.cpp
+++ b/src/app/ua/transport/server/UaTcpConnectionReceiveHello.cpp
@@ -32,6 +32,11 @@ void UaTcpConnectionReceiveHello::onDataReceived(UaTcpConnection& fsm)
     }
 }
 
+void UaTcpConnectionReceiveHello::onError(UaTcpConnection& fsm)
+{
+    fsm.transit<UaTcpConnectionInit>();
+}
+
 void UaTcpConnectionReceiveHello::onTimer(UaTcpConnection& fsm)
 {
     fsm.transit<UaTcpConnectionInit>();
diff --git a/src/app/ua/transport/server/UaTcpConnectionReceiveHello.hpp b/src/app/ua/transport/server/UaTcpConnectionReceiveHello.hpp
index 9f372a4..f100976 100644
--- a/src/app/ua/transport/server/UaTcpConnectionReceiveHello.hpp
+++ b/src/app/ua/transport/server/UaTcpConnectionReceiveHello.hpp
@@ -16,6 +16,8 @@ public:
 
     void onDataReceived(UaTcpConnection&) final;
 
+    void onError(UaTcpConnection&) final;
+
     void onTimer(UaTcpConnection&) final;
 
     void onExit(UaTcpConnection&) final;
-- 
2.43.0


From 2095b2d03c4e36e2d19fb16510aa31d0df7d827e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:03 +0000
Subject: [PATCH 43/52] fix: release the secure channel that a connection
 replaces

---
 src/app/ua/transport/server/UaTcpConnection.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/app/ua/transport/server/UaTcpConnection.cpp b/src/app/ua/transport/server/UaTcpConnection.cpp
index ad83e7c..8a6b25c 100644
--- a/src/app/ua/transport/server/UaTcpConnection.cpp
+++ b/src/app/ua/transport/server/UaTcpConnection.cpp
@@ -67,6 +67,10 @@ UaTcpConnection::Result UaTcpConnection::receive(MsgUaSecuredMessageSendReq cons
 
 UaTcpConnection::Result UaTcpConnection::receive(MsgUaOpenSecureChannelRsp const& msg)
 {
+    if (associatedSecureChannelId && *associatedSecureChannelId != msg.secureChannelId)
+    {
+        sendUaConnectionReleaseInd();
+    }
     associatedSecureChannelId = msg.secureChannelId;
 
     OpcUaSduBuffer tx;
-- 
2.43.0


From 68a34bc5955e3f0ffb22ba1cd7d477616fe30b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:03 +0000
Subject: [PATCH 44/52] fix: release a secure channel whose connection has gone
 before it was opened

---
 src/app/ua/transport/server/UaTcpConnection.cpp            | 7 ++++++-
 src/app/ua/transport/server/UaTcpConnection.hpp            | 1 +
 src/app/ua/transport/server/UaTcpConnectionInit.cpp        | 5 +++++
 src/app/ua/transport/server/UaTcpConnectionInit.hpp        | 2 ++
 .../ua/transport/server/UaTcpConnectionReceiveHello.cpp    | 5 +++++
 .../ua/transport/server/UaTcpConnectionReceiveHello.hpp    | 2 ++
 6 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/app/ua/transport/server/UaTcpConnection.cpp b/src/app/ua/transport/server/UaTcpConnection.cpp
index 8a6b25c..154c142 100644
--- a/src/app/ua/transport/server/UaTcpConnection.cpp
+++ b/src/app/ua/transport/server/UaTcpConnection.cpp
@@ -27,9 +27,14 @@ void UaTcpConnection::sendUaConnectionReleaseInd()
         LM(UATL, LE, "Uid-%u, Can not send UaConnectionReleaseInd, secure channel id is undefined", connectionId);
         return;
     }
+    sendUaConnectionReleaseInd(*associatedSecureChannelId);
+}
+
+void UaTcpConnection::sendUaConnectionReleaseInd(UaSecureChannelId secureChannelId)
+{
     reactor::MsgStore<MsgUaConnectionReleaseInd> msgStore;
     msgStore.getMsg().connectionId = connectionId;
-    msgStore.getMsg().secureChannelId = *associatedSecureChannelId;
+    msgStore.getMsg().secureChannelId = secureChannelId;
     Sender::sendMsg(msgStore);
 }
 
diff --git a/src/app/ua/transport/server/UaTcpConnection.hpp b/src/app/ua/transport/server/UaTcpConnection.hpp
index 742faef..14f5a90 100644
--- a/src/app/ua/transport/server/UaTcpConnection.hpp
+++ b/src/app/ua/transport/server/UaTcpConnection.hpp
@@ -51,6 +51,7 @@ public:
     Result sendAcknowledge();
     Result receiveSecuredMessage();
     void sendUaConnectionReleaseInd();
+    void sendUaConnectionReleaseInd(UaSecureChannelId);
 private:
 
     UaConnectionId const connectionId;
diff --git a/src/app/ua/transport/server/UaTcpConnectionInit.cpp b/src/app/ua/transport/server/UaTcpConnectionInit.cpp
index c9a0801..04da02a 100644
--- a/src/app/ua/transport/server/UaTcpConnectionInit.cpp
+++ b/src/app/ua/transport/server/UaTcpConnectionInit.cpp
@@ -17,4 +17,9 @@ void UaTcpConnectionInit::onAcceptLink(UaTcpConnection& fsm, reactor::LinkPtr& l
     fsm.transit<UaTcpConnectionReceiveHello>();
 }
 
+void UaTcpConnectionInit::onReceive(UaTcpConnection& fsm, MsgUaOpenSecureChannelRsp const& rsp)
+{
+    fsm.sendUaConnectionReleaseInd(rsp.secureChannelId);
+}
+
 } // namespace app::ua::transport
diff --git a/src/app/ua/transport/server/UaTcpConnectionInit.hpp b/src/app/ua/transport/server/UaTcpConnectionInit.hpp
index 210adfa..f487e42 100644
--- a/src/app/ua/transport/server/UaTcpConnectionInit.hpp
+++ b/src/app/ua/transport/server/UaTcpConnectionInit.hpp
@@ -15,6 +15,8 @@ public:
     void onEnter(UaTcpConnection&) final;
 
     void onAcceptLink(UaTcpConnection&, reactor::LinkPtr&) final;
+
+    void onReceive(UaTcpConnection&, MsgUaOpenSecureChannelRsp const&) final;
 };
 
 } // namespace app::ua::transport
diff --git a/src/app/ua/transport/server/UaTcpConnectionReceiveHello.cpp b/src/app/ua/transport/server/UaTcpConnectionReceiveHello.cpp
index ef99a73..d9384ee 100644
--- a/src/app/ua/transport/server/UaTcpConnectionReceiveHello.cpp
+++ b/src/app/ua/transport/server/UaTcpConnectionReceiveHello.cpp
@@ -47,4 +47,9 @@ void UaTcpConnectionReceiveHello::onExit(UaTcpConnection& fsm)
     fsm.stopTimer();
 }
 
+void UaTcpConnectionReceiveHello::onReceive(UaTcpConnection& fsm, MsgUaOpenSecureChannelRsp const& rsp)
+{
+    fsm.sendUaConnectionReleaseInd(rsp.secureChannelId);
+}
+
 } // namespace app::ua::transport
diff --git a/src/app/ua/transport/server/UaTcpConnectionReceiveHello.hpp b/src/app/ua/transport/server/UaTcpConnectionReceiveHello.hpp
index f100976..259e967 100644
--- a/src/app/ua/transport/server/UaTcpConnectionReceiveHello.hpp
+++ b/src/app/ua/transport/server/UaTcpConnectionReceiveHello.hpp
@@ -16,6 +16,8 @@ public:
 
     void onDataReceived(UaTcpConnection&) final;
 
+    void onReceive(UaTcpConnection&, MsgUaOpenSecureChannelRsp const&) final;
+
     void onError(UaTcpConnection&) final;
 
     void onTimer(UaTcpConnection&) final;
-- 
2.43.0


From 234bfef027a94a10295466a0383cc86fa208aaa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:03 +0000
Subject: [PATCH 45/52] fix: a message that can not be decoded ends its secure
 channel

---
 .../channel/UaServerSecureChannel.cpp         | 14 ++++++++++---
 .../UaServerSecureChannelEstablished.cpp      | 20 +++++++++++++++++--
 2 files changed, 29 insertions(+), 5 deletions(-)

diff --git a/src/app/ua/securechannel/channel/UaServerSecureChannel.cpp b/src/app/ua/securechannel/channel/UaServerSecureChannel.cpp
index c509882..f5eab6d 100644
--- a/src/app/ua/securechannel/channel/UaServerSecureChannel.cpp
+++ b/src/app/ua/securechannel/channel/UaServerSecureChannel.cpp
@@ -45,11 +45,19 @@ UaServerSecureChannel::Result UaServerSecureChannel::receive(MsgUaOpenSecureChan
     OpcUaBinaryCodec rxCodec(rx);
 
     UaSecurityHeader rxSecHdr;
-    rxCodec >> rxSecHdr;
     UaSequenceHeader rxSeqHdr;
-    rxCodec >> rxSeqHdr;
     UaOpenSecureChannelReqCont req;
-    rxCodec >> req;
+    try
+    {
+        rxCodec >> rxSecHdr;
+        rxCodec >> rxSeqHdr;
+        rxCodec >> req;
+    }
+    catch (std::exception const& e)
+    {
+        LM(UASC, LE, "Uid-%u, invalid message: %s", secureChannelId, e.what());
+        return Result::error;
+    }
 
     connectionId = msgReq.connectionId;
     storedRxSequenceNumber = rxSeqHdr.sequenceNumber;
diff --git a/src/app/ua/securechannel/channel/UaServerSecureChannelEstablished.cpp b/src/app/ua/securechannel/channel/UaServerSecureChannelEstablished.cpp
index 1bdaf2c..6bc0e85 100644
--- a/src/app/ua/securechannel/channel/UaServerSecureChannelEstablished.cpp
+++ b/src/app/ua/securechannel/channel/UaServerSecureChannelEstablished.cpp
@@ -7,7 +7,14 @@ namespace app::ua::securechannel
 
 void UaServerSecureChannelEstablished::onReceive(UaServerSecureChannel& fsm, MsgUaCloseSecureChannelReq const& msg)
 {
-    fsm.receive(msg);
+    try
+    {
+        fsm.receive(msg);
+    }
+    catch (std::exception const& e)
+    {
+        LM(UASC, LE, "Invalid message: %s", e.what());
+    }
     fsm.sendUaConnectionReleaseReq(msg.connectionId);
     fsm.transit<UaServerSecureChannelInit>();
 }
@@ -29,7 +36,16 @@ void UaServerSecureChannelEstablished::onReceive(UaServerSecureChannel& fsm, Msg
 
 void UaServerSecureChannelEstablished::onReceive(UaServerSecureChannel& fsm, MsgUaSecuredMessageReceiveInd const& msg)
 {
-    if (UaServerSecureChannel::Result::done != fsm.receive(msg))
+    auto result = UaServerSecureChannel::Result::error;
+    try
+    {
+        result = fsm.receive(msg);
+    }
+    catch (std::exception const& e)
+    {
+        LM(UASC, LE, "Invalid message: %s", e.what());
+    }
+    if (UaServerSecureChannel::Result::done != result)
     {
         fsm.sendUaConnectionReleaseReq(msg.connectionId);
         fsm.transit<UaServerSecureChannelInit>();
-- 
2.43.0


From 73897996e7a04e8484b8499404bf97f48b1ad1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:03 +0000
Subject: [PATCH 46/52] fix: an unknown service id must not be taken for
 another service

---
 src/app/ua/service/UaService.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/app/ua/service/UaService.cpp b/src/app/ua/service/UaService.cpp
index f7edc3b..04db4b4 100644
--- a/src/app/ua/service/UaService.cpp
+++ b/src/app/ua/service/UaService.cpp
@@ -49,14 +49,14 @@ void UaService::receive(MsgUaEncodedMessageReceiveInd const& msgReq)
 
     UaServiceId serviceId = std::get<UInt32>(eNodeId.nodeId.value);
 
-    auto& serv = services[static_cast<DataTypeId>(serviceId)];
-    if (not serv)
+    auto const it = services.find(static_cast<DataTypeId>(serviceId));
+    if (it == services.end() || static_cast<UaServiceId>(it->first) != serviceId)
     {
         LM(UASRV, LE, "Unexpected service id(%u)", serviceId);
         return;
     }
 
-    serv->receive(msgReq.hdr, rx);
+    it->second->receive(msgReq.hdr, rx);
 }
 
 } // namespace app::ua::service
-- 
2.43.0


From dae1e67b04685c066d6be69bbc049a1279e00fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:28 +0000
Subject: [PATCH 47/52] fix: only the connection of a secure channel can end it

---
 .../channel/UaServerSecureChannel.cpp            |  5 +++++
 .../channel/UaServerSecureChannel.hpp            |  1 +
 .../channel/UaServerSecureChannelEstablished.cpp | 16 +++++++++++++++-
 3 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/app/ua/securechannel/channel/UaServerSecureChannel.cpp b/src/app/ua/securechannel/channel/UaServerSecureChannel.cpp
index f5eab6d..e5a96fa 100644
--- a/src/app/ua/securechannel/channel/UaServerSecureChannel.cpp
+++ b/src/app/ua/securechannel/channel/UaServerSecureChannel.cpp
@@ -20,6 +20,11 @@ UaServerSecureChannel::~UaServerSecureChannel()
 {
 }
 
+bool UaServerSecureChannel::isConnection(UaConnectionId id) const
+{
+    return connectionId && *connectionId == id;
+}
+
 void UaServerSecureChannel::release()
 {
     sequenceNumberTx = 0;
diff --git a/src/app/ua/securechannel/channel/UaServerSecureChannel.hpp b/src/app/ua/securechannel/channel/UaServerSecureChannel.hpp
index 736eae6..22c78b5 100644
--- a/src/app/ua/securechannel/channel/UaServerSecureChannel.hpp
+++ b/src/app/ua/securechannel/channel/UaServerSecureChannel.hpp
@@ -34,6 +34,7 @@ public:
     Result receive(MsgUaSecuredMessageReceiveInd const&);
     Result receive(MsgUaEncodedMessageSendReq const&);
 
+    bool   isConnection(UaConnectionId) const;
     void   release();
     void   sendUaConnectionReleaseReq(UaConnectionId);
 
diff --git a/src/app/ua/securechannel/channel/UaServerSecureChannelEstablished.cpp b/src/app/ua/securechannel/channel/UaServerSecureChannelEstablished.cpp
index 6bc0e85..7137978 100644
--- a/src/app/ua/securechannel/channel/UaServerSecureChannelEstablished.cpp
+++ b/src/app/ua/securechannel/channel/UaServerSecureChannelEstablished.cpp
@@ -7,6 +7,11 @@ namespace app::ua::securechannel
 
 void UaServerSecureChannelEstablished::onReceive(UaServerSecureChannel& fsm, MsgUaCloseSecureChannelReq const& msg)
 {
+    if (not fsm.isConnection(msg.connectionId))
+    {
+        fsm.sendUaConnectionReleaseReq(msg.connectionId);
+        return;
+    }
     try
     {
         fsm.receive(msg);
@@ -24,8 +29,12 @@ void UaServerSecureChannelEstablished::onReceive(UaServerSecureChannel& fsm, Msg
     fsm.receive(msg);
 }
 
-void UaServerSecureChannelEstablished::onReceive(UaServerSecureChannel& fsm, MsgUaConnectionReleaseInd const&)
+void UaServerSecureChannelEstablished::onReceive(UaServerSecureChannel& fsm, MsgUaConnectionReleaseInd const& msg)
 {
+    if (not fsm.isConnection(msg.connectionId))
+    {
+        return;
+    }
     fsm.transit<UaServerSecureChannelInit>();
 }
 
@@ -36,6 +45,11 @@ void UaServerSecureChannelEstablished::onReceive(UaServerSecureChannel& fsm, Msg
 
 void UaServerSecureChannelEstablished::onReceive(UaServerSecureChannel& fsm, MsgUaSecuredMessageReceiveInd const& msg)
 {
+    if (not fsm.isConnection(msg.connectionId))
+    {
+        fsm.sendUaConnectionReleaseReq(msg.connectionId);
+        return;
+    }
     auto result = UaServerSecureChannel::Result::error;
     try
     {
-- 
2.43.0


From 35d026913e5fbc25dbefa5dcb5ea5c1b953f591b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:33 +0000
Subject: [PATCH 48/52] fix: responses of secure channel and service components
 go to the controller

---
 src/app/common/msg/MsgUaSecureChannelConfigRsp.hpp  | 2 +-
 src/app/common/msg/MsgUaSecureChannelInitRsp.hpp    | 2 +-
 src/app/common/msg/MsgUaSecureChannelReleaseRsp.hpp | 2 +-
 src/app/common/msg/MsgUaServiceConfigRsp.hpp        | 2 +-
 src/app/common/msg/MsgUaServiceInitRsp.hpp          | 2 +-
 src/app/common/msg/MsgUaServiceReleaseRsp.hpp       | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/app/common/msg/MsgUaSecureChannelConfigRsp.hpp b/src/app/common/msg/MsgUaSecureChannelConfigRsp.hpp
index 95d09c2..820267b 100644
--- a/src/app/common/msg/MsgUaSecureChannelConfigRsp.hpp
+++ b/src/app/common/msg/MsgUaSecureChannelConfigRsp.hpp
@@ -7,7 +7,7 @@
 namespace app
 {
 
-struct MsgUaSecureChannelConfigRsp : public reactor::MsgBase<MsgUaSecureChannelConfigRsp, CompIds::compUaSecChannel, MsgIds::uaSecureChannelConfigRsp>
+struct MsgUaSecureChannelConfigRsp : public reactor::MsgBase<MsgUaSecureChannelConfigRsp, CompIds::compController, MsgIds::uaSecureChannelConfigRsp>
 {
 };
 
diff --git a/src/app/common/msg/MsgUaSecureChannelInitRsp.hpp b/src/app/common/msg/MsgUaSecureChannelInitRsp.hpp
index 7ea60c3..fcc92e8 100644
--- a/src/app/common/msg/MsgUaSecureChannelInitRsp.hpp
+++ b/src/app/common/msg/MsgUaSecureChannelInitRsp.hpp
@@ -7,7 +7,7 @@
 namespace app
 {
 
-struct MsgUaSecureChannelInitRsp : public reactor::MsgBase<MsgUaSecureChannelInitRsp, CompIds::compUaSecChannel, MsgIds::uaSecureChannelInitRsp>
+struct MsgUaSecureChannelInitRsp : public reactor::MsgBase<MsgUaSecureChannelInitRsp, CompIds::compController, MsgIds::uaSecureChannelInitRsp>
 {
 };
 
diff --git a/src/app/common/msg/MsgUaSecureChannelReleaseRsp.hpp b/src/app/common/msg/MsgUaSecureChannelReleaseRsp.hpp
index a71c126..1fde3df 100644
--- a/src/app/common/msg/MsgUaSecureChannelReleaseRsp.hpp
+++ b/src/app/common/msg/MsgUaSecureChannelReleaseRsp.hpp
@@ -7,7 +7,7 @@
 namespace app
 {
 
-struct MsgUaSecureChannelReleaseRsp : public reactor::MsgBase<MsgUaSecureChannelReleaseRsp, CompIds::compUaSecChannel, MsgIds::uaSecureChannelReleaseRsp>
+struct MsgUaSecureChannelReleaseRsp : public reactor::MsgBase<MsgUaSecureChannelReleaseRsp, CompIds::compController, MsgIds::uaSecureChannelReleaseRsp>
 {
 };
 
diff --git a/src/app/common/msg/MsgUaServiceConfigRsp.hpp b/src/app/common/msg/MsgUaServiceConfigRsp.hpp
index b325533..119a477 100644
--- a/src/app/common/msg/MsgUaServiceConfigRsp.hpp
+++ b/src/app/common/msg/MsgUaServiceConfigRsp.hpp
@@ -7,7 +7,7 @@
 namespace app
 {
 
-struct MsgUaServiceConfigRsp : public reactor::MsgBase<MsgUaServiceConfigRsp, CompIds::compUaSecChannel, MsgIds::uaServiceConfigRsp>
+struct MsgUaServiceConfigRsp : public reactor::MsgBase<MsgUaServiceConfigRsp, CompIds::compController, MsgIds::uaServiceConfigRsp>
 {
 };
 
diff --git a/src/app/common/msg/MsgUaServiceInitRsp.hpp b/src/app/common/msg/MsgUaServiceInitRsp.hpp
index 928aada..92c45c9 100644
--- a/src/app/common/msg/MsgUaServiceInitRsp.hpp
+++ b/src/app/common/msg/MsgUaServiceInitRsp.hpp
@@ -7,7 +7,7 @@
 namespace app
 {
 
-struct MsgUaServiceInitRsp : public reactor::MsgBase<MsgUaServiceInitRsp, CompIds::compUaSecChannel, MsgIds::uaServiceInitRsp>
+struct MsgUaServiceInitRsp : public reactor::MsgBase<MsgUaServiceInitRsp, CompIds::compController, MsgIds::uaServiceInitRsp>
 {
 };
 
diff --git a/src/app/common/msg/MsgUaServiceReleaseRsp.hpp b/src/app/common/msg/MsgUaServiceReleaseRsp.hpp
index bdacea3..412c9ba 100644
--- a/src/app/common/msg/MsgUaServiceReleaseRsp.hpp
+++ b/src/app/common/msg/MsgUaServiceReleaseRsp.hpp
@@ -7,7 +7,7 @@
 namespace app
 {
 
-struct MsgUaServiceReleaseRsp : public reactor::MsgBase<MsgUaServiceReleaseRsp, CompIds::compUaSecChannel, MsgIds::uaServiceReleaseRsp>
+struct MsgUaServiceReleaseRsp : public reactor::MsgBase<MsgUaServiceReleaseRsp, CompIds::compController, MsgIds::uaServiceReleaseRsp>
 {
 };
 
-- 
2.43.0


From abb5080174a3427e325ea194723dbab7051be6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:53 +0000
Subject: [PATCH 49/52] fix: the owner of a connection may close it when told
 that it is connected

---
 .../ua/protocols/connection/ClientConnectionConnected.cpp       | 2 +-
 .../ua/protocols/connection/ServerConnectionConnected.cpp       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/app/common/ua/protocols/connection/ClientConnectionConnected.cpp b/src/app/common/ua/protocols/connection/ClientConnectionConnected.cpp
index 4159ec4..4df1adc 100644
--- a/src/app/common/ua/protocols/connection/ClientConnectionConnected.cpp
+++ b/src/app/common/ua/protocols/connection/ClientConnectionConnected.cpp
@@ -7,9 +7,9 @@ namespace app::ua
 
 void ClientConnectionConnected::onEnter(ClientConnection& fsm)
 {
-    fsm.notifyConnected();
     fsm.receivePreaction();
     fsm.startTimer(ClientConnection::establishTimeout);
+    fsm.notifyConnected();
 }
 
 void ClientConnectionConnected::onDataReceived(ClientConnection& fsm)
diff --git a/src/app/common/ua/protocols/connection/ServerConnectionConnected.cpp b/src/app/common/ua/protocols/connection/ServerConnectionConnected.cpp
index 5ef7dab..ad99978 100644
--- a/src/app/common/ua/protocols/connection/ServerConnectionConnected.cpp
+++ b/src/app/common/ua/protocols/connection/ServerConnectionConnected.cpp
@@ -7,9 +7,9 @@ namespace app::ua
 
 void ServerConnectionConnected::onEnter(ServerConnection& fsm)
 {
-    fsm.notifyConnected();
     fsm.receivePreaction();
     fsm.startTimer(ServerConnection::establishTimeout);
+    fsm.notifyConnected();
 }
 
 void ServerConnectionConnected::onDataReceived(ServerConnection& fsm)
-- 
2.43.0


From d4a4aa91489caba5bf5482b3644fd9a9fc860707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:53 +0000
Subject: [PATCH 50/52] fix: stopping the controller before it was started must
 not dereference null

---
 src/app/controller/ControllerComponent.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/app/controller/ControllerComponent.cpp b/src/app/controller/ControllerComponent.cpp
index cd46b0c..a3d8fc0 100644
--- a/src/app/controller/ControllerComponent.cpp
+++ b/src/app/controller/ControllerComponent.cpp
@@ -49,9 +49,11 @@ void ControllerComponent::receive(MsgControllerStartReq const& req)
 void ControllerComponent::receive(MsgControllerStopReq const& req)
 {
     LM(CTRL, LD, "ControllerStopReq received");
-    modbus->receive(req);
+    if (modbus)
+        modbus->receive(req);
     modbus.reset();
-    opcUa->getState().onReceive(*opcUa, req);
+    if (opcUa)
+        opcUa->getState().onReceive(*opcUa, req);
     opcUa.reset();
 }
 
-- 
2.43.0


From 6c4b17dea1f96815f90ab578668b889c7ee947eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:53 +0000
Subject: [PATCH 51/52] fix: stopping while Modbus is being configured releases
 it

---
 src/app/controller/modbus/ModbusTestConfigure.cpp | 6 ++++++
 src/app/controller/modbus/ModbusTestConfigure.hpp | 2 ++
 2 files changed, 8 insertions(+)

diff --git a/src/app/controller/modbus/ModbusTestConfigure.cpp b/src/app/controller/modbus/ModbusTestConfigure.cpp
index 4e2b6cb..ef382bd 100644
--- a/src/app/controller/modbus/ModbusTestConfigure.cpp
+++ b/src/app/controller/modbus/ModbusTestConfigure.cpp
@@ -1,6 +1,7 @@
 #include "ModbusTestConfigure.hpp"
 #include "ModbusTestFsm.hpp"
 #include "ModbusTestController.hpp"
+#include "ModbusTestInit.hpp"
 #include "ModbusTestRun.hpp"
 
 namespace app::controller
@@ -17,4 +18,9 @@ void ModbusTestConfigure::onModbusConfigRspReceive(ModbusTestFsm& fsm, MsgModbus
     fsm.transit<ModbusTestRun>();
 }
 
+void ModbusTestConfigure::onStop(ModbusTestFsm& fsm)
+{
+    fsm.transit<ModbusTestInit>();
+}
+
 } // namespace app::controller
diff --git a/src/app/controller/modbus/ModbusTestConfigure.hpp b/src/app/controller/modbus/ModbusTestConfigure.hpp
index 2a90bb8..2fc21af 100644
--- a/src/app/controller/modbus/ModbusTestConfigure.hpp
+++ b/src/app/controller/modbus/ModbusTestConfigure.hpp
@@ -16,6 +16,8 @@ public:
 
     void onModbusConfigRspReceive(ModbusTestFsm&, MsgModbusConfigRsp const&) final;
 
+    void onStop(ModbusTestFsm&) final;
+
 private:
     /* data */
 };
-- 
2.43.0


From 1902fd24917e197e20d146c9a9364a9738ed3b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:53 +0000
Subject: [PATCH 52/52] fix: Modbus messages must not access memory outside of
 the test cases

---
 .../modbus/ModbusTestController.cpp           | 44 +++++++++++++++++++
 .../modbus/ModbusTestController.hpp           |  2 +
 2 files changed, 46 insertions(+)

diff --git a/src/app/controller/modbus/ModbusTestController.cpp b/src/app/controller/modbus/ModbusTestController.cpp
index 6997c8b..4b797b3 100644
--- a/src/app/controller/modbus/ModbusTestController.cpp
+++ b/src/app/controller/modbus/ModbusTestController.cpp
@@ -243,6 +243,12 @@ Result ModbusTestController::process(MsgModbusClientAduRsp const& rsp)
 {
     testCaseCounter += 1;
 
+    if (rsp.transactId >= testCases.size())
+    {
+        LM(CTRL, LE, "TEST CASE: %u, INVALID transactId", rsp.transactId);
+        return Result::error;
+    }
+
     auto const& it = testCases[rsp.transactId];
 
     if (it.req.clientId != rsp.clientId)
@@ -339,8 +345,46 @@ void ModbusTestController::process(MsgModbusConfigRsp const&)
     std::this_thread::sleep_for(2s);
 }
 
+bool ModbusTestController::isInsideOfTestCase(MsgModbusAduReq const& req) const
+{
+    if (req.transactId >= testCases.size())
+    {
+        return false;
+    }
+    std::size_t numBytes = 0;
+    switch (req.func)
+    {
+    case ModbusFunction::readHoldingRegisters:
+    case ModbusFunction::readInputRegisters:
+        numBytes = req.numItems * 2u;
+    break;
+    case ModbusFunction::presetSingleRegister:
+    case ModbusFunction::presetMultipleRegisters:
+        numBytes = req.numBytes;
+    break;
+    default:
+    return true;
+    }
+    return req.startItem * 2u + numBytes <= testCases[req.transactId].rsp.data.size();
+}
+
 Result ModbusTestController::process(MsgModbusAduReq const& req)
 {
+    if (not isInsideOfTestCase(req))
+    {
+        LM(CTRL, LE, "TEST CASE: %u, startItem-%u is out of range", req.transactId, req.startItem);
+        reactor::MsgStore<MsgModbusAduRsp> msgStore;
+        MsgModbusAduRsp& rsp = msgStore.getMsg();
+        rsp.serverId = req.serverId;
+        rsp.sessionId = req.sessionId;
+        rsp.transactId = req.transactId;
+        rsp.error = ModbusError::illegalDataAddress;
+        rsp.status = MsgStatus::success;
+        rsp.numBytes = 0;
+        Sender::sendMsg(msgStore);
+        return Result::done;
+    }
+
     auto& it = testCases[req.transactId];
 
     switch (req.func)
diff --git a/src/app/controller/modbus/ModbusTestController.hpp b/src/app/controller/modbus/ModbusTestController.hpp
index 688f99e..dcfca0b 100644
--- a/src/app/controller/modbus/ModbusTestController.hpp
+++ b/src/app/controller/modbus/ModbusTestController.hpp
@@ -62,6 +62,8 @@ private:
 
     void onTimerEvent();
 
+    bool isInsideOfTestCase(MsgModbusAduReq const&) const;
+
     ModbusTestFsm fsm;
     reactor::TimerPtr timer;
     struct Request
-- 
2.43.0

