From 0ce4f4f25d17da9acec1f6fbab5cdd0324a59548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:33 +0000
Subject: [PATCH 01/70] fix: address and port bytes above 127 are sign extended
 in LinkAddr conversion

---
 src/app/common/reactor/types/LinkAddr.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/app/common/reactor/types/LinkAddr.hpp b/src/app/common/reactor/types/LinkAddr.hpp
index 989f54a..f8a8c48 100644
--- a/src/app/common/reactor/types/LinkAddr.hpp
+++ b/src/app/common/reactor/types/LinkAddr.hpp
@@ -17,17 +17,17 @@ struct LinkAddr
 
 inline std::uint16_t ipv4port(LinkAddr const& addr)
 {
-    std::uint16_t a = addr.data[4];
-    std::uint16_t b = addr.data[5];
+    std::uint16_t a = static_cast<std::uint8_t>(addr.data[4]);
+    std::uint16_t b = static_cast<std::uint8_t>(addr.data[5]);
     return a << 8 | b;
 }
 
 inline std::uint32_t ipv4addr(LinkAddr const& addr)
 {
-    std::uint32_t a = addr.data[0];
-    std::uint32_t b = addr.data[1];
-    std::uint32_t c = addr.data[2];
-    std::uint32_t d = addr.data[3];
+    std::uint32_t a = static_cast<std::uint8_t>(addr.data[0]);
+    std::uint32_t b = static_cast<std::uint8_t>(addr.data[1]);
+    std::uint32_t c = static_cast<std::uint8_t>(addr.data[2]);
+    std::uint32_t d = static_cast<std::uint8_t>(addr.data[3]);
     return a << 24 | b << 16 | c << 8 | d;
 }
 
-- 
2.43.0


From 832567459d1b6efa922bb98d549fbaaed2a9cbf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:33 +0000
Subject: [PATCH 02/70] fix: Link::receive reports end of stream as data

---
 src/app/common/reactor/Link.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/app/common/reactor/Link.cpp b/src/app/common/reactor/Link.cpp
index 3b25bc3..5d4c99e 100644
--- a/src/app/common/reactor/Link.cpp
+++ b/src/app/common/reactor/Link.cpp
@@ -129,6 +129,11 @@ LinkResult Link::receive(std::uint8_t* data, std::size_t len)
         LM(GEN, LI, "Link(%d) read rc: %d errno: %d", fd, rc, errno);
         return {LinkResult::error, 0};
     }
+    else if (0 == rc && 0 != len)
+    {
+        LM(GEN, LI, "Link(%d) closed by peer", fd);
+        return {LinkResult::closed, 0};
+    }
     return {LinkResult::ok, rc};
 }
 
-- 
2.43.0


From 87deb0366b95ac3ed9c1e7fc70251b69e48c5ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:33 +0000
Subject: [PATCH 03/70] fix: sending on a link closed by the peer kills the
 process with SIGPIPE

---
 src/app/common/reactor/Link.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/app/common/reactor/Link.cpp b/src/app/common/reactor/Link.cpp
index 5d4c99e..1445f71 100644
--- a/src/app/common/reactor/Link.cpp
+++ b/src/app/common/reactor/Link.cpp
@@ -104,7 +104,7 @@ int Link::send(void const* data, std::size_t len)
     {
         return -1;
     }
-    if (-1 == ::write(fd, data, len))
+    if (-1 == ::send(fd, data, len, MSG_NOSIGNAL))
     {
         LM(GEN, LE, "write errno: %d", errno);
         return -1;
-- 
2.43.0


From e5e035b63a5291097823995d5d60e303777bc3b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:33 +0000
Subject: [PATCH 04/70] fix: link keeps a closed descriptor when registering an
 accepted connection fails

---
 src/app/common/reactor/Acceptor.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/app/common/reactor/Acceptor.cpp b/src/app/common/reactor/Acceptor.cpp
index ea8651e..42d7e4c 100644
--- a/src/app/common/reactor/Acceptor.cpp
+++ b/src/app/common/reactor/Acceptor.cpp
@@ -132,8 +132,7 @@ void Acceptor::accept(LinkInterface& link)
 
     if (-1 == epoll.add(link, EPOLLIN | EPOLLET))
     {
-        ::close(fd);
-        link.setFileDescriptor(-1);
+        link.close();
         throw std::runtime_error("fd add");
     }
 }
-- 
2.43.0


From d05e8a150507371c0ab328880371973f5db04bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:33 +0000
Subject: [PATCH 05/70] fix: releasing an acceptor that is not listening throws
 out of the deleter

---
 src/app/common/reactor/Acceptor.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/app/common/reactor/Acceptor.cpp b/src/app/common/reactor/Acceptor.cpp
index 42d7e4c..78c897f 100644
--- a/src/app/common/reactor/Acceptor.cpp
+++ b/src/app/common/reactor/Acceptor.cpp
@@ -82,7 +82,8 @@ void Acceptor::close()
 {
     if (-1 == sfd)
     {
-        throw std::runtime_error("invalid sfd");
+        LM(GEN, LI, "sfd is closed");
+        return;
     }
     LM(GEN, LD, "Close");
     if (-1 == epoll.del(*this))
-- 
2.43.0


From be615ae1f8e7122e2f14963baf80ede4312d8483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:33 +0000
Subject: [PATCH 06/70] fix: timer keeps a closed descriptor when its
 registration fails

---
 src/app/common/reactor/Timer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/app/common/reactor/Timer.cpp b/src/app/common/reactor/Timer.cpp
index 09d3fd8..db62d8b 100644
--- a/src/app/common/reactor/Timer.cpp
+++ b/src/app/common/reactor/Timer.cpp
@@ -40,6 +40,7 @@ void Timer::create()
     if (-1 == epoll.add(*this, EPOLLIN | EPOLLET))
     {
         ::close(fd);
+        fd = -1;
         throw std::runtime_error("fd add");
     }
 }
-- 
2.43.0


From 8cd142b4bb7b999495a70b615742b1e40b775e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:33 +0000
Subject: [PATCH 07/70] fix: event descriptor leaks when its registration fails

---
 src/app/common/reactor/Event.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/app/common/reactor/Event.cpp b/src/app/common/reactor/Event.cpp
index b8a70ba..0d6393c 100644
--- a/src/app/common/reactor/Event.cpp
+++ b/src/app/common/reactor/Event.cpp
@@ -27,6 +27,7 @@ Event::Event(EpollInterface& epoll_, EventHandler& handler_)
     }
     if (-1 == epoll.add(*this, EPOLLIN | EPOLLET))
     {
+        ::close(fd);
         throw std::runtime_error("fd add");
     }
 }
-- 
2.43.0


From fecdc2bdec27074cfc70efbe581a7cb68201c15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:33 +0000
Subject: [PATCH 08/70] fix: timer pool entry leaks when the timer can not be
 created

---
 src/app/common/reactor/Reactor.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/app/common/reactor/Reactor.cpp b/src/app/common/reactor/Reactor.cpp
index b0909cc..52a32a3 100644
--- a/src/app/common/reactor/Reactor.cpp
+++ b/src/app/common/reactor/Reactor.cpp
@@ -62,7 +62,15 @@ TimerPtr Reactor::createTimer(TimerHandler handler)
         throw std::runtime_error("timerPool alloc");
     }
     Timer& timer = timerPool.get(uid);
-    timer.create();
+    try
+    {
+        timer.create();
+    }
+    catch (...)
+    {
+        timerPool.release(uid);
+        throw;
+    }
     timer.setHandler(handler);
     TimerPtr timerPtr(&timer, [this, uid](auto* timer)
     {
-- 
2.43.0


From 8af0097ffbdc21518c838a55d6c15f6215cf1dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:33 +0000
Subject: [PATCH 09/70] fix: exception from one message handler drops the
 wake-ups of the other messages

---
 src/app/common/reactor/Reactor.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/app/common/reactor/Reactor.cpp b/src/app/common/reactor/Reactor.cpp
index 52a32a3..370e804 100644
--- a/src/app/common/reactor/Reactor.cpp
+++ b/src/app/common/reactor/Reactor.cpp
@@ -161,7 +161,14 @@ void Reactor::onFdEvent(uint64_t val)
         MsgHandler& handler = handlers[msg.getMsgId()];
         if (handler)
         {
-            handler(msg);
+            try
+            {
+                handler(msg);
+            }
+            catch (std::exception const& e)
+            {
+                LM(GEN, LE, "Handler of msgId=%zu failed: %s", msg.getMsgId(), e.what());
+            }
         }
         else
         {
-- 
2.43.0


From 85ddab7cb9a49bfc508c3abff507f4fcf86fbdf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:33 +0000
Subject: [PATCH 10/70] fix: exception from one event handler drops the other
 events of the same wait

---
 src/app/common/reactor/Epoll.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/app/common/reactor/Epoll.cpp b/src/app/common/reactor/Epoll.cpp
index 22ca688..d513a40 100644
--- a/src/app/common/reactor/Epoll.cpp
+++ b/src/app/common/reactor/Epoll.cpp
@@ -68,7 +68,14 @@ void Epoll::wait()
             throw std::runtime_error("invalid ptr");
         }
         FileDescriptorInterface& fd = *static_cast<FileDescriptorInterface*>(events[n].data.ptr);
-        fd.onFileDescriptorEvent(events[n].events);
+        try
+        {
+            fd.onFileDescriptorEvent(events[n].events);
+        }
+        catch (std::exception const& e)
+        {
+            LM(GEN, LE, "Event handler failed: %s", e.what());
+        }
     }
 }
 
-- 
2.43.0


From 496a356e57b0ff6ec651683a0a31c63f2cf02b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:48 +0000
Subject: [PATCH 11/70] fix: message slots do not account for their header and
 accept messages of any length

---
 src/app/common/reactor/MsgMemStorage.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/app/common/reactor/MsgMemStorage.cpp b/src/app/common/reactor/MsgMemStorage.cpp
index 8fa30a8..3a39686 100644
--- a/src/app/common/reactor/MsgMemStorage.cpp
+++ b/src/app/common/reactor/MsgMemStorage.cpp
@@ -6,7 +6,7 @@ namespace app::reactor
 {
 
 MsgMemStorage::MsgMemStorage(std::size_t chunkSize_, std::size_t numChunks_)
-    : chunkSize(chunkSize_)
+    : chunkSize(chunkSize_ + sizeof(Item))
     , numChunks(numChunks_)
     , freeIds(numChunks)
     , busyIds(numChunks)
@@ -30,6 +30,11 @@ MsgMemStorage::~MsgMemStorage()
 
 bool MsgMemStorage::push(const void* data, std::uint64_t len)
 {
+    if (len > chunkSize - sizeof(Item))
+    {
+        return false;
+    }
+
     std::lock_guard<std::mutex> guard(mutex);
 
     if (freeIds.empty())
-- 
2.43.0


From 2af76f03f3aa157441cb08f0077a66b8da6f9c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:16 +0000
Subject: [PATCH 12/70] fix: secure channel and service responses to the
 controller are addressed to the secure channel component

---
 src/app/common/msg/MsgUaSecureChannelConfigRsp.hpp  | 2 +-
 src/app/common/msg/MsgUaSecureChannelInitRsp.hpp    | 2 +-
 src/app/common/msg/MsgUaSecureChannelReleaseRsp.hpp | 2 +-
 src/app/common/msg/MsgUaServiceConfigRsp.hpp        | 2 +-
 src/app/common/msg/MsgUaServiceInitRsp.hpp          | 2 +-
 src/app/common/msg/MsgUaServiceReleaseRsp.hpp       | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/app/common/msg/MsgUaSecureChannelConfigRsp.hpp b/src/app/common/msg/MsgUaSecureChannelConfigRsp.hpp
index 95d09c2..820267b 100644
--- a/src/app/common/msg/MsgUaSecureChannelConfigRsp.hpp
+++ b/src/app/common/msg/MsgUaSecureChannelConfigRsp.hpp
@@ -7,7 +7,7 @@
 namespace app
 {
 
-struct MsgUaSecureChannelConfigRsp : public reactor::MsgBase<MsgUaSecureChannelConfigRsp, CompIds::compUaSecChannel, MsgIds::uaSecureChannelConfigRsp>
+struct MsgUaSecureChannelConfigRsp : public reactor::MsgBase<MsgUaSecureChannelConfigRsp, CompIds::compController, MsgIds::uaSecureChannelConfigRsp>
 {
 };
 
diff --git a/src/app/common/msg/MsgUaSecureChannelInitRsp.hpp b/src/app/common/msg/MsgUaSecureChannelInitRsp.hpp
index 7ea60c3..fcc92e8 100644
--- a/src/app/common/msg/MsgUaSecureChannelInitRsp.hpp
+++ b/src/app/common/msg/MsgUaSecureChannelInitRsp.hpp
@@ -7,7 +7,7 @@
 namespace app
 {
 
-struct MsgUaSecureChannelInitRsp : public reactor::MsgBase<MsgUaSecureChannelInitRsp, CompIds::compUaSecChannel, MsgIds::uaSecureChannelInitRsp>
+struct MsgUaSecureChannelInitRsp : public reactor::MsgBase<MsgUaSecureChannelInitRsp, CompIds::compController, MsgIds::uaSecureChannelInitRsp>
 {
 };
 
diff --git a/src/app/common/msg/MsgUaSecureChannelReleaseRsp.hpp b/src/app/common/msg/MsgUaSecureChannelReleaseRsp.hpp
index a71c126..1fde3df 100644
--- a/src/app/common/msg/MsgUaSecureChannelReleaseRsp.hpp
+++ b/src/app/common/msg/MsgUaSecureChannelReleaseRsp.hpp
@@ -7,7 +7,7 @@
 namespace app
 {
 
-struct MsgUaSecureChannelReleaseRsp : public reactor::MsgBase<MsgUaSecureChannelReleaseRsp, CompIds::compUaSecChannel, MsgIds::uaSecureChannelReleaseRsp>
+struct MsgUaSecureChannelReleaseRsp : public reactor::MsgBase<MsgUaSecureChannelReleaseRsp, CompIds::compController, MsgIds::uaSecureChannelReleaseRsp>
 {
 };
 
diff --git a/src/app/common/msg/MsgUaServiceConfigRsp.hpp b/src/app/common/msg/MsgUaServiceConfigRsp.hpp
index b325533..119a477 100644
--- a/src/app/common/msg/MsgUaServiceConfigRsp.hpp
+++ b/src/app/common/msg/MsgUaServiceConfigRsp.hpp
@@ -7,7 +7,7 @@
 namespace app
 {
 
-struct MsgUaServiceConfigRsp : public reactor::MsgBase<MsgUaServiceConfigRsp, CompIds::compUaSecChannel, MsgIds::uaServiceConfigRsp>
+struct MsgUaServiceConfigRsp : public reactor::MsgBase<MsgUaServiceConfigRsp, CompIds::compController, MsgIds::uaServiceConfigRsp>
 {
 };
 
diff --git a/src/app/common/msg/MsgUaServiceInitRsp.hpp b/src/app/common/msg/MsgUaServiceInitRsp.hpp
index 928aada..92c45c9 100644
--- a/src/app/common/msg/MsgUaServiceInitRsp.hpp
+++ b/src/app/common/msg/MsgUaServiceInitRsp.hpp
@@ -7,7 +7,7 @@
 namespace app
 {
 
-struct MsgUaServiceInitRsp : public reactor::MsgBase<MsgUaServiceInitRsp, CompIds::compUaSecChannel, MsgIds::uaServiceInitRsp>
+struct MsgUaServiceInitRsp : public reactor::MsgBase<MsgUaServiceInitRsp, CompIds::compController, MsgIds::uaServiceInitRsp>
 {
 };
 
diff --git a/src/app/common/msg/MsgUaServiceReleaseRsp.hpp b/src/app/common/msg/MsgUaServiceReleaseRsp.hpp
index bdacea3..412c9ba 100644
--- a/src/app/common/msg/MsgUaServiceReleaseRsp.hpp
+++ b/src/app/common/msg/MsgUaServiceReleaseRsp.hpp
@@ -7,7 +7,7 @@
 namespace app
 {
 
-struct MsgUaServiceReleaseRsp : public reactor::MsgBase<MsgUaServiceReleaseRsp, CompIds::compUaSecChannel, MsgIds::uaServiceReleaseRsp>
+struct MsgUaServiceReleaseRsp : public reactor::MsgBase<MsgUaServiceReleaseRsp, CompIds::compController, MsgIds::uaServiceReleaseRsp>
 {
 };
 
-- 
2.43.0


From e9f935e48b493922461e570fb4e17c5b7b80691a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:55 +0000
Subject: [PATCH 13/70] fix: packet buffer is read past the received data and
 written past its end

---
 src/app/common/ua/common/OpcUaSduBuffer.cpp | 25 +++++++++++++++++++++
 src/app/common/ua/common/OpcUaSduBuffer.hpp |  2 ++
 2 files changed, 27 insertions(+)

diff --git a/src/app/common/ua/common/OpcUaSduBuffer.cpp b/src/app/common/ua/common/OpcUaSduBuffer.cpp
index d22456f..4c83853 100644
--- a/src/app/common/ua/common/OpcUaSduBuffer.cpp
+++ b/src/app/common/ua/common/OpcUaSduBuffer.cpp
@@ -1,6 +1,9 @@
 #include "OpcUaSduBuffer.hpp"
 #include "Logger.hpp"
 
+#include <cstring>
+#include <stdexcept>
+
 namespace app::ua
 {
 
@@ -17,11 +20,29 @@ OpcUaSduBuffer::~OpcUaSduBuffer()
 void OpcUaSduBuffer::write(std::uint8_t val)
 {
     //LM(GEN, LE, "end: %u, wr: %d", head, (int)val);
+    if (capacity() == 0)
+    {
+        throw std::runtime_error("OpcUaSduBuffer: write beyond the end of the packet");
+    }
     packet[head++] = val;
 }
 
+void OpcUaSduBuffer::write(void const* data, std::uint32_t len)
+{
+    if (len > capacity())
+    {
+        throw std::runtime_error("OpcUaSduBuffer: write beyond the end of the packet");
+    }
+    std::memcpy(end(), data, len);
+    head += len;
+}
+
 std::uint8_t OpcUaSduBuffer::read()
 {
+    if (tail >= head)
+    {
+        throw std::runtime_error("OpcUaSduBuffer: read beyond the received data");
+    }
     auto const& rd = packet[tail];
     //LM(GEN, LE, "tail: %u, rd: %d", tail, (int)rd);
     tail++;
@@ -60,6 +81,10 @@ std::uint32_t OpcUaSduBuffer::capacity() const
 
 void OpcUaSduBuffer::seek(std::uint32_t val)
 {
+    if (val > capacity())
+    {
+        throw std::runtime_error("OpcUaSduBuffer: seek beyond the end of the packet");
+    }
     head += val;
 }
 
diff --git a/src/app/common/ua/common/OpcUaSduBuffer.hpp b/src/app/common/ua/common/OpcUaSduBuffer.hpp
index 2669bb2..600262b 100644
--- a/src/app/common/ua/common/OpcUaSduBuffer.hpp
+++ b/src/app/common/ua/common/OpcUaSduBuffer.hpp
@@ -15,6 +15,8 @@ public:
 
     void write(std::uint8_t);
 
+    void write(void const*, std::uint32_t);
+
     std::uint8_t read();
 
     std::uint8_t const* begin() const;
-- 
2.43.0


From 52d07e1b2903aac44c273f80788e44571278817e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:55 +0000
Subject: [PATCH 14/70] fix: packet buffer size includes the bytes already
 read, messages are forwarded with garbage appended

---
 src/app/common/ua/common/OpcUaSduBuffer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/app/common/ua/common/OpcUaSduBuffer.cpp b/src/app/common/ua/common/OpcUaSduBuffer.cpp
index 4c83853..89a1784 100644
--- a/src/app/common/ua/common/OpcUaSduBuffer.cpp
+++ b/src/app/common/ua/common/OpcUaSduBuffer.cpp
@@ -71,7 +71,7 @@ std::uint8_t const* OpcUaSduBuffer::end() const
 
 std::uint32_t OpcUaSduBuffer::size() const
 {
-    return head;
+    return head - tail;
 }
 
 std::uint32_t OpcUaSduBuffer::capacity() const
-- 
2.43.0


From 91700fd284cda6a61788b004cbbdcb58626fd767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:15 +0000
Subject: [PATCH 15/70] fix: message payloads are copied into packet buffers
 without a length check

---
 .../ua/protocols/secure/OpcUaServerSecureChannel.cpp |  3 +--
 .../securechannel/channel/UaServerSecureChannel.cpp  | 12 ++++--------
 src/app/ua/service/UaService.cpp                     |  3 +--
 src/app/ua/transport/server/UaTcpConnection.cpp      |  9 +++------
 4 files changed, 9 insertions(+), 18 deletions(-)

diff --git a/src/app/common/ua/protocols/secure/OpcUaServerSecureChannel.cpp b/src/app/common/ua/protocols/secure/OpcUaServerSecureChannel.cpp
index 06f022c..acee7d6 100644
--- a/src/app/common/ua/protocols/secure/OpcUaServerSecureChannel.cpp
+++ b/src/app/common/ua/protocols/secure/OpcUaServerSecureChannel.cpp
@@ -184,8 +184,7 @@ void OpcUaServerSecureChannel::send(OpcUaSduBuffer const& buf)
     seqHdr.requestId = storedRequestId;
     codec << seqHdr;
 
-    std::memcpy(tx.end(), buf.begin(), buf.size());
-    tx.seek(buf.size());
+    tx.write(buf.begin(), buf.size());
 
     setPayloadSizeToHdr(tx.begin(), tx.size());
 
diff --git a/src/app/ua/securechannel/channel/UaServerSecureChannel.cpp b/src/app/ua/securechannel/channel/UaServerSecureChannel.cpp
index fb461e9..46d808f 100644
--- a/src/app/ua/securechannel/channel/UaServerSecureChannel.cpp
+++ b/src/app/ua/securechannel/channel/UaServerSecureChannel.cpp
@@ -39,8 +39,7 @@ void UaServerSecureChannel::sendUaConnectionReleaseReq(UaConnectionId connection
 UaServerSecureChannel::Result UaServerSecureChannel::receive(MsgUaOpenSecureChannelReq const& msgReq)
 {
     OpcUaSduBuffer rx;
-    std::memcpy(rx.end(), &msgReq.data[0], msgReq.length);
-    rx.seek(msgReq.length);
+    rx.write(&msgReq.data[0], msgReq.length);
 
     OpcUaBinaryCodec rxCodec(rx);
 
@@ -98,8 +97,7 @@ UaServerSecureChannel::Result UaServerSecureChannel::receive(MsgUaCloseSecureCha
     }
 
     OpcUaSduBuffer rx;
-    std::memcpy(rx.end(), &msgReq.data[0], msgReq.length);
-    rx.seek(msgReq.length);
+    rx.write(&msgReq.data[0], msgReq.length);
 
     OpcUaBinaryCodec rxCodec(rx);
 
@@ -175,8 +173,7 @@ UaServerSecureChannel::Result UaServerSecureChannel::receive(MsgUaSecuredMessage
     }
 
     OpcUaSduBuffer rx;
-    std::memcpy(rx.end(), &msgReq.data[0], msgReq.length);
-    rx.seek(msgReq.length);
+    rx.write(&msgReq.data[0], msgReq.length);
 
     OpcUaBinaryCodec rxCodec(rx);
 
@@ -238,8 +235,7 @@ UaServerSecureChannel::Result UaServerSecureChannel::receive(MsgUaEncodedMessage
     seqHdr.sequenceNumber = sequenceNumberTx++;
     codec << seqHdr;
 
-    std::memcpy(tx.end(), &msgReq.data[0], msgReq.length);
-    tx.seek(msgReq.length);
+    tx.write(&msgReq.data[0], msgReq.length);
 
     reactor::MsgStore<MsgUaSecuredMessageSendReq> msgStore;
     auto& msgRsp = msgStore.getMsg();
diff --git a/src/app/ua/service/UaService.cpp b/src/app/ua/service/UaService.cpp
index f7edc3b..4e9b3d4 100644
--- a/src/app/ua/service/UaService.cpp
+++ b/src/app/ua/service/UaService.cpp
@@ -34,8 +34,7 @@ void UaService::receive(MsgUaEncodedMessageReceiveInd const& msgReq)
     LM(UASRV, LD, "UaEncodedMessageReceiveInd, received");
 
     OpcUaSduBuffer rx;
-    std::memcpy(rx.end(), &msgReq.data[0], msgReq.length);
-    rx.seek(msgReq.length);
+    rx.write(&msgReq.data[0], msgReq.length);
 
     OpcUaBinaryCodec codec(rx);
     ExpandedNodeId eNodeId;
diff --git a/src/app/ua/transport/server/UaTcpConnection.cpp b/src/app/ua/transport/server/UaTcpConnection.cpp
index 5d705b3..e25de3a 100644
--- a/src/app/ua/transport/server/UaTcpConnection.cpp
+++ b/src/app/ua/transport/server/UaTcpConnection.cpp
@@ -51,8 +51,7 @@ UaTcpConnection::Result UaTcpConnection::receive(MsgUaSecuredMessageSendReq cons
     hdr.secureChannelId = msg.secureChannelId;
     codec << hdr;
 
-    std::memcpy(tx.end(), &msg.data[0], msg.length);
-    tx.seek(msg.length);
+    tx.write(&msg.data[0], msg.length);
 
     setPayloadSizeToHdr(tx.begin(), tx.size());
 
@@ -79,8 +78,7 @@ UaTcpConnection::Result UaTcpConnection::receive(MsgUaOpenSecureChannelRsp const
     hdr.secureChannelId = msg.secureChannelId;
     codec << hdr;
 
-    std::memcpy(tx.end(), &msg.data[0], msg.length);
-    tx.seek(msg.length);
+    tx.write(&msg.data[0], msg.length);
 
     setPayloadSizeToHdr(tx.begin(), tx.size());
 
@@ -111,8 +109,7 @@ UaTcpConnection::Result UaTcpConnection::receive(MsgUaCloseSecureChannelRsp cons
     hdr.secureChannelId = msg.secureChannelId;
     codec << hdr;
 
-    std::memcpy(tx.end(), &msg.data[0], msg.length);
-    tx.seek(msg.length);
+    tx.write(&msg.data[0], msg.length);
 
     setPayloadSizeToHdr(tx.begin(), tx.size());
 
-- 
2.43.0


From 7a6b55e7fa864196d049763e8065787019f982e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:15 +0000
Subject: [PATCH 16/70] fix: a full packet overruns the message it is forwarded
 in

---
 src/app/common/reactor/types/MaxMsgSize.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/app/common/reactor/types/MaxMsgSize.hpp b/src/app/common/reactor/types/MaxMsgSize.hpp
index 25da898..45fe0e3 100644
--- a/src/app/common/reactor/types/MaxMsgSize.hpp
+++ b/src/app/common/reactor/types/MaxMsgSize.hpp
@@ -3,6 +3,7 @@
 namespace app::reactor
 {
 
-static constexpr unsigned maxMsgSize = 1 << 12;
+// a full packet (4096 bytes) and the message fields in front of it
+static constexpr unsigned maxMsgSize = (1 << 12) + 256;
 
 } // namespace app::reactor
-- 
2.43.0


From 8c8a19eab33611d46380c2e3ad5f9574c6c82528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:15 +0000
Subject: [PATCH 17/70] fix: unexpected NodeId and Variant encodings terminate
 the process

---
 src/app/common/ua/common/OpcUaBinaryCodec.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/app/common/ua/common/OpcUaBinaryCodec.cpp b/src/app/common/ua/common/OpcUaBinaryCodec.cpp
index 3b0efa0..b55d51f 100644
--- a/src/app/common/ua/common/OpcUaBinaryCodec.cpp
+++ b/src/app/common/ua/common/OpcUaBinaryCodec.cpp
@@ -2,6 +2,7 @@
 #include "Logger.hpp"
 
 #include <cstring>
+#include <stdexcept>
 
 namespace app::ua
 {
@@ -398,7 +399,7 @@ OpcUaBinaryCodec& operator>>(OpcUaBinaryCodec& s, NodeId& nodeId)
     }
     break;
     default:
-        throw;
+        throw std::runtime_error("NodeId: unexpected encoding");
     }
     return s;
 }
@@ -444,7 +445,7 @@ OpcUaBinaryCodec& operator<<(OpcUaBinaryCodec& s, NodeId const& nodeId)
     }
     else
     {
-        throw;
+        throw std::runtime_error("NodeId: unexpected type of identifier");
     }
     return s;
 }
@@ -772,7 +773,7 @@ OpcUaBinaryCodec& operator>>(OpcUaBinaryCodec& s, Variant& variant)
         }
         break;
         default:
-            throw;
+            throw std::runtime_error("Variant: unexpected type of array");
         }
         return s;
     }
-- 
2.43.0


From 4020ff397f566b31bf6fad52272eeaa9cd00de70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:16 +0000
Subject: [PATCH 18/70] fix: lengths of strings and arrays from the wire are
 used unchecked

---
 src/app/common/ua/common/OpcUaBinaryCodec.cpp |  9 +++++++++
 src/app/common/ua/common/OpcUaBinaryCodec.hpp | 11 +++++++++++
 2 files changed, 20 insertions(+)

diff --git a/src/app/common/ua/common/OpcUaBinaryCodec.cpp b/src/app/common/ua/common/OpcUaBinaryCodec.cpp
index b55d51f..f7f1ba5 100644
--- a/src/app/common/ua/common/OpcUaBinaryCodec.cpp
+++ b/src/app/common/ua/common/OpcUaBinaryCodec.cpp
@@ -258,8 +258,13 @@ OpcUaBinaryCodec& operator>>(OpcUaBinaryCodec& s, String& val)
     s >> len;
     if (len == -1)
     {
+        val.clear();
         return s;
     }
+    if (len < 0 || static_cast<std::uint32_t>(len) > s.buf().size())
+    {
+        throw std::runtime_error("String: unexpected length");
+    }
     val.resize(len);
     for (std::int32_t i = 0; i < len; ++i)
     {
@@ -328,6 +333,10 @@ OpcUaBinaryCodec& operator>>(OpcUaBinaryCodec& s, ByteString& val)
         val.clear();
         return s;
     }
+    if (len < 0 || static_cast<std::uint32_t>(len) > s.buf().size())
+    {
+        throw std::runtime_error("String: unexpected length");
+    }
     val.resize(len);
     for (std::int32_t i = 0; i < len; ++i)
     {
diff --git a/src/app/common/ua/common/OpcUaBinaryCodec.hpp b/src/app/common/ua/common/OpcUaBinaryCodec.hpp
index 5a0b704..6067d66 100644
--- a/src/app/common/ua/common/OpcUaBinaryCodec.hpp
+++ b/src/app/common/ua/common/OpcUaBinaryCodec.hpp
@@ -1,5 +1,7 @@
 #pragma once
 
+#include <stdexcept>
+
 #include "OpcUaSduBuffer.hpp"
 #include "Boolean.hpp"
 #include "SByte.hpp"
@@ -241,6 +243,15 @@ OpcUaBinaryCodec& operator>>(OpcUaBinaryCodec& s, DynamicArray<T>& arr)
 {
     Int32 arrayLength;
     s >> arrayLength;
+    if (arrayLength == -1)
+    {
+        arr.clear();
+        return s;
+    }
+    if (arrayLength < 0 || static_cast<std::uint32_t>(arrayLength) > s.buf().size())
+    {
+        throw std::runtime_error("Array: unexpected length");
+    }
     arr.resize(arrayLength);
     for (auto& it : arr)
     {
-- 
2.43.0


From 669ab184af597ab33b4d0dbd705205d121fb30a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:02 +0000
Subject: [PATCH 19/70] fix: flags of an ExpandedNodeId are set in the first
 byte of the packet

---
 src/app/common/ua/common/OpcUaBinaryCodec.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/app/common/ua/common/OpcUaBinaryCodec.cpp b/src/app/common/ua/common/OpcUaBinaryCodec.cpp
index f7f1ba5..35da562 100644
--- a/src/app/common/ua/common/OpcUaBinaryCodec.cpp
+++ b/src/app/common/ua/common/OpcUaBinaryCodec.cpp
@@ -614,7 +614,7 @@ OpcUaBinaryCodec& operator>>(OpcUaBinaryCodec& s, ExpandedNodeId& data)
 
 OpcUaBinaryCodec& operator<<(OpcUaBinaryCodec& s, ExpandedNodeId const& data)
 {
-    uint8_t& encodingMask = *s.buf().begin();
+    uint8_t& encodingMask = *s.buf().end();
     s << data.nodeId;
     if (data.encodingMask() & 0x1)
     {
-- 
2.43.0


From e7941a9c81092f8e32a878a6cf44a72e0a3d6cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:02 +0000
Subject: [PATCH 20/70] fix: ExpandedNodeId and ExtensionObject with an empty
 string differ from what they decode to

---
 src/app/common/ua/common/types/ExpandedNodeId.hpp  | 7 +++++--
 src/app/common/ua/common/types/ExtensionObject.hpp | 2 +-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/app/common/ua/common/types/ExpandedNodeId.hpp b/src/app/common/ua/common/types/ExpandedNodeId.hpp
index 2bb58a0..64b8e68 100644
--- a/src/app/common/ua/common/types/ExpandedNodeId.hpp
+++ b/src/app/common/ua/common/types/ExpandedNodeId.hpp
@@ -17,8 +17,11 @@ struct ExpandedNodeId : public StructType<DataTypeId::ExpandedNodeId>
     bool operator==(ExpandedNodeId const& rhs) const
     {
         return this->nodeId == rhs.nodeId
-            && this->namespaceUri == rhs.namespaceUri
-            && this->serverIndex == rhs.serverIndex;
+            && compare
+            (
+                  std::make_tuple(namespaceUri, rhs.namespaceUri)
+                , std::make_tuple(serverIndex, rhs.serverIndex)
+            );
     }
     std::uint8_t encodingMask() const
     {
diff --git a/src/app/common/ua/common/types/ExtensionObject.hpp b/src/app/common/ua/common/types/ExtensionObject.hpp
index fd8c3fd..e5b20e0 100644
--- a/src/app/common/ua/common/types/ExtensionObject.hpp
+++ b/src/app/common/ua/common/types/ExtensionObject.hpp
@@ -15,7 +15,7 @@ struct ExtensionObject : public StructType<DataTypeId::ExtensionObject>
     bool operator==(ExtensionObject const& rhs) const
     {
         return this->nodeId == rhs.nodeId
-            && this->byteString == rhs.byteString;
+            && compare(std::make_tuple(byteString, rhs.byteString));
     }
     std::uint8_t encodingMask() const
     {
-- 
2.43.0


From 4fa7119984e25ba1cbd384d4cc9dc64e9442134e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:02 +0000
Subject: [PATCH 21/70] fix: XmlElement is neither encoded nor decoded

---
 src/app/common/ua/common/OpcUaBinaryCodec.cpp | 33 +++++++++++++++++--
 src/app/common/ua/common/types/XmlElement.hpp |  5 ++-
 2 files changed, 35 insertions(+), 3 deletions(-)

diff --git a/src/app/common/ua/common/OpcUaBinaryCodec.cpp b/src/app/common/ua/common/OpcUaBinaryCodec.cpp
index 35da562..193469d 100644
--- a/src/app/common/ua/common/OpcUaBinaryCodec.cpp
+++ b/src/app/common/ua/common/OpcUaBinaryCodec.cpp
@@ -587,13 +587,42 @@ OpcUaBinaryCodec& operator<<(OpcUaBinaryCodec& s, LocalizedText const& lt)
     return s;
 }
 
-OpcUaBinaryCodec& operator>>(OpcUaBinaryCodec& s, XmlElement&)
+OpcUaBinaryCodec& operator>>(OpcUaBinaryCodec& s, XmlElement& val)
 {
+    Int32 len;
+    s >> len;
+    if (len == -1)
+    {
+        val.clear();
+        return s;
+    }
+    if (len < 0 || static_cast<std::uint32_t>(len) > s.buf().size())
+    {
+        throw std::runtime_error("String: unexpected length");
+    }
+    val.resize(len);
+    for (std::int32_t i = 0; i < len; ++i)
+    {
+        val[i] = s.read();
+    }
     return s;
 }
 
-OpcUaBinaryCodec& operator<<(OpcUaBinaryCodec& s, XmlElement const&)
+OpcUaBinaryCodec& operator<<(OpcUaBinaryCodec& s, XmlElement const& val)
 {
+    Int32 len;
+    len = val.size();
+    if (len == 0)
+    {
+        len = -1;
+        s << len;
+        return s;
+    }
+    s << len;
+    for (std::int32_t i = 0; i < len; ++i)
+    {
+        s.write(val[i]);
+    }
     return s;
 }
 
diff --git a/src/app/common/ua/common/types/XmlElement.hpp b/src/app/common/ua/common/types/XmlElement.hpp
index 8b375f9..fdf5f72 100644
--- a/src/app/common/ua/common/types/XmlElement.hpp
+++ b/src/app/common/ua/common/types/XmlElement.hpp
@@ -5,6 +5,9 @@
 namespace app::ua
 {
 
-using XmlElement = NumericType<DataTypeId::XmlElement, std::uint8_t>;
+struct XmlElement : public StringType<DataTypeId::XmlElement>
+{
+    using StringType::StringType;
+};
 
 } // namespace app::ua
-- 
2.43.0


From 2e89522a3ee61e60b331338e82448f2dcb16ac4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:02 +0000
Subject: [PATCH 22/70] fix: most Variant arrays can be encoded but not decoded

---
 src/app/common/ua/common/OpcUaBinaryCodec.cpp | 75 +++++++++++++++++++
 1 file changed, 75 insertions(+)

diff --git a/src/app/common/ua/common/OpcUaBinaryCodec.cpp b/src/app/common/ua/common/OpcUaBinaryCodec.cpp
index 193469d..9f1a14c 100644
--- a/src/app/common/ua/common/OpcUaBinaryCodec.cpp
+++ b/src/app/common/ua/common/OpcUaBinaryCodec.cpp
@@ -810,6 +810,81 @@ OpcUaBinaryCodec& operator>>(OpcUaBinaryCodec& s, Variant& variant)
             s >> variant.emplace<DynamicArray<UInt32>>();
         }
         break;
+        case DataTypeId::Int64:
+        {
+            s >> variant.emplace<DynamicArray<Int64>>();
+        }
+        break;
+        case DataTypeId::UInt64:
+        {
+            s >> variant.emplace<DynamicArray<UInt64>>();
+        }
+        break;
+        case DataTypeId::Float:
+        {
+            s >> variant.emplace<DynamicArray<Float>>();
+        }
+        break;
+        case DataTypeId::Double:
+        {
+            s >> variant.emplace<DynamicArray<Double>>();
+        }
+        break;
+        case DataTypeId::String:
+        {
+            s >> variant.emplace<DynamicArray<String>>();
+        }
+        break;
+        case DataTypeId::DateTime:
+        {
+            s >> variant.emplace<DynamicArray<DateTime>>();
+        }
+        break;
+        case DataTypeId::Guid:
+        {
+            s >> variant.emplace<DynamicArray<Guid>>();
+        }
+        break;
+        case DataTypeId::ByteString:
+        {
+            s >> variant.emplace<DynamicArray<ByteString>>();
+        }
+        break;
+        case DataTypeId::XmlElement:
+        {
+            s >> variant.emplace<DynamicArray<XmlElement>>();
+        }
+        break;
+        case DataTypeId::NodeId:
+        {
+            s >> variant.emplace<DynamicArray<NodeId>>();
+        }
+        break;
+        case DataTypeId::ExpandedNodeId:
+        {
+            s >> variant.emplace<DynamicArray<ExpandedNodeId>>();
+        }
+        break;
+        case DataTypeId::StatusCode:
+        {
+            s >> variant.emplace<DynamicArray<StatusCode>>();
+        }
+        break;
+        case DataTypeId::QualifiedName:
+        {
+            s >> variant.emplace<DynamicArray<QualifiedName>>();
+        }
+        break;
+        case DataTypeId::LocalizedText:
+        {
+            s >> variant.emplace<DynamicArray<LocalizedText>>();
+        }
+        break;
+        case DataTypeId::ExtensionObject:
+        {
+            s >> variant.emplace<DynamicArray<ExtensionObject>>();
+        }
+        break;
         default:
             throw std::runtime_error("Variant: unexpected type of array");
         }
-- 
2.43.0


From aa6f47284ad5f6c46f979d2fa18a00427e7c1302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:02 +0000
Subject: [PATCH 23/70] fix: array dimensions of a Variant are not encoded and
 compared when absent

---
 src/app/common/ua/common/OpcUaBinaryCodec.cpp | 9 ++++++++-
 src/app/common/ua/common/types/Variant.hpp    | 4 ++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/app/common/ua/common/OpcUaBinaryCodec.cpp b/src/app/common/ua/common/OpcUaBinaryCodec.cpp
index 9f1a14c..846e42a 100644
--- a/src/app/common/ua/common/OpcUaBinaryCodec.cpp
+++ b/src/app/common/ua/common/OpcUaBinaryCodec.cpp
@@ -888,7 +888,6 @@ OpcUaBinaryCodec& operator>>(OpcUaBinaryCodec& s, Variant& variant)
         default:
             throw std::runtime_error("Variant: unexpected type of array");
         }
-        return s;
     }
     else
     {
@@ -1011,6 +1010,10 @@ OpcUaBinaryCodec& operator>>(OpcUaBinaryCodec& s, Variant& variant)
         break;
         };
     }
+    if (encodingMask & 0x40)
+    {
+        s >> variant.arrayDimensions;
+    }
     return s;
 }
 
@@ -1026,6 +1029,10 @@ OpcUaBinaryCodec& operator<<(OpcUaBinaryCodec& s, Variant const& variant)
     {
         s << arg;
     }, *variant.value);
+    if (encodingMask & 0x40)
+    {
+        s << variant.arrayDimensions;
+    }
     return s;
 }
 
diff --git a/src/app/common/ua/common/types/Variant.hpp b/src/app/common/ua/common/types/Variant.hpp
index 9db8968..334e2d3 100644
--- a/src/app/common/ua/common/types/Variant.hpp
+++ b/src/app/common/ua/common/types/Variant.hpp
@@ -92,14 +92,14 @@ struct Variant : public StructType<DataTypeId::Variant>
         {
             cmpValue = not (this->value || rhs.value);
         }
-        bool cmpArrayDimensions = *this->arrayDimensions == *rhs.arrayDimensions;
+        bool cmpArrayDimensions = this->arrayDimensions == rhs.arrayDimensions;
         return cmpValue && cmpArrayDimensions;
     }
     std::uint8_t encodingMask() const
     {
         // see type Value
         auto toDataTypeId = [](auto val) { return val < 22 ? val + 1 : ((val - 21) | 0x80); };
-        return value ? toDataTypeId(value->index()) : 0;
+        return value ? (toDataTypeId(value->index()) | (arrayDimensions ? 0x40 : 0)) : 0;
     }
     template <typename T, typename...ARGS>
     T& emplace(ARGS...args)
-- 
2.43.0


From cbcbf970ef524cb90c33c23e4d3dadcdc859ec3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:21 +0000
Subject: [PATCH 24/70] fix: session ids from the wire index the pool unchecked

---
 src/app/common/ua/common/UaEntityPool.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/app/common/ua/common/UaEntityPool.hpp b/src/app/common/ua/common/UaEntityPool.hpp
index 3442a3f..9b822cd 100644
--- a/src/app/common/ua/common/UaEntityPool.hpp
+++ b/src/app/common/ua/common/UaEntityPool.hpp
@@ -52,7 +52,7 @@ public:
 
     ENTITY& get(EntityId uid)
     {
-        return *(pool[uid - 1]);
+        return *(pool.at(uid - 1));
     }
 
 private:
-- 
2.43.0


From 3aa0f33b306d34b4fb95d4b235046e58d5ed79c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:21 +0000
Subject: [PATCH 25/70] fix: a reused secure channel starts with a different
 sequence number than a new one

---
 src/app/ua/securechannel/channel/UaServerSecureChannel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/app/ua/securechannel/channel/UaServerSecureChannel.cpp b/src/app/ua/securechannel/channel/UaServerSecureChannel.cpp
index 46d808f..1ca060b 100644
--- a/src/app/ua/securechannel/channel/UaServerSecureChannel.cpp
+++ b/src/app/ua/securechannel/channel/UaServerSecureChannel.cpp
@@ -22,7 +22,7 @@ UaServerSecureChannel::~UaServerSecureChannel()
 
 void UaServerSecureChannel::release()
 {
-    sequenceNumberTx = 0;
+    sequenceNumberTx = 1;
     connectionId = {};
     sessionId = {};
     releaser.release(secureChannelId);
-- 
2.43.0


From 8bfe7f7d09a765e73a95a4878e081e071c798029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:21 +0000
Subject: [PATCH 26/70] fix: a malformed message leaves the secure channel
 allocated

---
 .../channel/UaServerSecureChannel.hpp             | 15 +++++++++++++++
 .../channel/UaServerSecureChannelEstablished.cpp  |  4 ++--
 .../channel/UaServerSecureChannelInit.cpp         |  2 +-
 3 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/app/ua/securechannel/channel/UaServerSecureChannel.hpp b/src/app/ua/securechannel/channel/UaServerSecureChannel.hpp
index 736eae6..c92a950 100644
--- a/src/app/ua/securechannel/channel/UaServerSecureChannel.hpp
+++ b/src/app/ua/securechannel/channel/UaServerSecureChannel.hpp
@@ -34,6 +34,21 @@ public:
     Result receive(MsgUaSecuredMessageReceiveInd const&);
     Result receive(MsgUaEncodedMessageSendReq const&);
 
+    // a message that can not be decoded is an error of the peer
+    template <typename MSG>
+    Result tryReceive(MSG const& msg)
+    {
+        try
+        {
+            return receive(msg);
+        }
+        catch (std::exception const& e)
+        {
+            LM(UASC, LE, "Uid-%u, malformed message: %s", secureChannelId, e.what());
+            return Result::error;
+        }
+    }
+
     void   release();
     void   sendUaConnectionReleaseReq(UaConnectionId);
 
diff --git a/src/app/ua/securechannel/channel/UaServerSecureChannelEstablished.cpp b/src/app/ua/securechannel/channel/UaServerSecureChannelEstablished.cpp
index 1bdaf2c..8275222 100644
--- a/src/app/ua/securechannel/channel/UaServerSecureChannelEstablished.cpp
+++ b/src/app/ua/securechannel/channel/UaServerSecureChannelEstablished.cpp
@@ -7,7 +7,7 @@ namespace app::ua::securechannel
 
 void UaServerSecureChannelEstablished::onReceive(UaServerSecureChannel& fsm, MsgUaCloseSecureChannelReq const& msg)
 {
-    fsm.receive(msg);
+    fsm.tryReceive(msg);
     fsm.sendUaConnectionReleaseReq(msg.connectionId);
     fsm.transit<UaServerSecureChannelInit>();
 }
@@ -29,7 +29,7 @@ void UaServerSecureChannelEstablished::onReceive(UaServerSecureChannel& fsm, Msg
 
 void UaServerSecureChannelEstablished::onReceive(UaServerSecureChannel& fsm, MsgUaSecuredMessageReceiveInd const& msg)
 {
-    if (UaServerSecureChannel::Result::done != fsm.receive(msg))
+    if (UaServerSecureChannel::Result::done != fsm.tryReceive(msg))
     {
         fsm.sendUaConnectionReleaseReq(msg.connectionId);
         fsm.transit<UaServerSecureChannelInit>();
diff --git a/src/app/ua/securechannel/channel/UaServerSecureChannelInit.cpp b/src/app/ua/securechannel/channel/UaServerSecureChannelInit.cpp
index 6e19646..81ffb61 100644
--- a/src/app/ua/securechannel/channel/UaServerSecureChannelInit.cpp
+++ b/src/app/ua/securechannel/channel/UaServerSecureChannelInit.cpp
@@ -12,7 +12,7 @@ void UaServerSecureChannelInit::onEnter(UaServerSecureChannel& fsm)
 
 void UaServerSecureChannelInit::onReceive(UaServerSecureChannel& fsm, MsgUaOpenSecureChannelReq const& msg)
 {
-    if (UaServerSecureChannel::Result::done == fsm.receive(msg))
+    if (UaServerSecureChannel::Result::done == fsm.tryReceive(msg))
     {
         fsm.transit<UaServerSecureChannelEstablished>();
     }
-- 
2.43.0


From 5b2a7d0718eba441791b890696383525409821ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:21 +0000
Subject: [PATCH 27/70] fix: any message is taken for a hello

---
 src/app/ua/transport/server/UaTcpConnection.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/app/ua/transport/server/UaTcpConnection.cpp b/src/app/ua/transport/server/UaTcpConnection.cpp
index e25de3a..dd606d1 100644
--- a/src/app/ua/transport/server/UaTcpConnection.cpp
+++ b/src/app/ua/transport/server/UaTcpConnection.cpp
@@ -224,13 +224,11 @@ UaTcpConnection::Result UaTcpConnection::receiveHello()
         return UaTcpConnection::Result::error;
     }
 
-/*
-    if (UaSecMsgType::opn != fromString(rxBuffer.begin()))
+    if (not isMsgHello(rxBuffer.begin()))
     {
         LM(UATL, LE, "Uid-%u, unexpected packet type", connectionId);
         return Result::error;
     }
-*/
     OpcUaBinaryCodec codec(rxBuffer);
 
     MessageHeader hdr;
-- 
2.43.0


From 6af24b889537604e392cdca6e59abd46d1fa3501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:21 +0000
Subject: [PATCH 28/70] fix: a malformed packet does not end the connection

---
 src/app/ua/transport/server/UaTcpConnection.hpp    | 14 ++++++++++++++
 .../transport/server/UaTcpConnectionConnected.cpp  |  2 +-
 .../server/UaTcpConnectionReceiveHello.cpp         |  2 +-
 3 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/app/ua/transport/server/UaTcpConnection.hpp b/src/app/ua/transport/server/UaTcpConnection.hpp
index 742faef..ed37795 100644
--- a/src/app/ua/transport/server/UaTcpConnection.hpp
+++ b/src/app/ua/transport/server/UaTcpConnection.hpp
@@ -47,6 +47,20 @@ public:
     void stopTimer();
     void receivePreaction();
     Result receive();
+    // a packet that can not be decoded is an error of the peer
+    template <typename ACTION>
+    Result tryReceive(ACTION action)
+    {
+        try
+        {
+            return action();
+        }
+        catch (std::exception const& e)
+        {
+            LM(UATL, LE, "Uid-%u, malformed packet: %s", connectionId, e.what());
+            return Result::error;
+        }
+    }
     Result receiveHello();
     Result sendAcknowledge();
     Result receiveSecuredMessage();
diff --git a/src/app/ua/transport/server/UaTcpConnectionConnected.cpp b/src/app/ua/transport/server/UaTcpConnectionConnected.cpp
index 0157c5c..26bc8eb 100644
--- a/src/app/ua/transport/server/UaTcpConnectionConnected.cpp
+++ b/src/app/ua/transport/server/UaTcpConnectionConnected.cpp
@@ -14,7 +14,7 @@ void UaTcpConnectionConnected::onEnter(UaTcpConnection& fsm)
 
 void UaTcpConnectionConnected::onDataReceived(UaTcpConnection& fsm)
 {
-    switch (fsm.receiveSecuredMessage())
+    switch (fsm.tryReceive([&fsm](){ return fsm.receiveSecuredMessage(); }))
     {
     case UaTcpConnection::Result::noerror:
     break;
diff --git a/src/app/ua/transport/server/UaTcpConnectionReceiveHello.cpp b/src/app/ua/transport/server/UaTcpConnectionReceiveHello.cpp
index 216340d..20f30d7 100644
--- a/src/app/ua/transport/server/UaTcpConnectionReceiveHello.cpp
+++ b/src/app/ua/transport/server/UaTcpConnectionReceiveHello.cpp
@@ -15,7 +15,7 @@ void UaTcpConnectionReceiveHello::onEnter(UaTcpConnection& fsm)
 
 void UaTcpConnectionReceiveHello::onDataReceived(UaTcpConnection& fsm)
 {
-    switch (fsm.receiveHello())
+    switch (fsm.tryReceive([&fsm](){ return fsm.receiveHello(); }))
     {
     case UaTcpConnection::Result::noerror:
     break;
-- 
2.43.0


From c500d7b144b806963c84174451d7ba3f70ec312f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:21 +0000
Subject: [PATCH 29/70] fix: a failed link does not end the UA TCP connection

---
 src/app/ua/transport/server/UaTcpConnectionConnected.cpp    | 6 ++++++
 src/app/ua/transport/server/UaTcpConnectionConnected.hpp    | 2 ++
 src/app/ua/transport/server/UaTcpConnectionReceiveHello.cpp | 5 +++++
 src/app/ua/transport/server/UaTcpConnectionReceiveHello.hpp | 2 ++
 4 files changed, 15 insertions(+)

diff --git a/src/app/ua/transport/server/UaTcpConnectionConnected.cpp b/src/app/ua/transport/server/UaTcpConnectionConnected.cpp
index 26bc8eb..0fd8d49 100644
--- a/src/app/ua/transport/server/UaTcpConnectionConnected.cpp
+++ b/src/app/ua/transport/server/UaTcpConnectionConnected.cpp
@@ -89,6 +89,12 @@ void UaTcpConnectionConnected::onReceive(UaTcpConnection& fsm, MsgUaConnectionRe
     fsm.transit<UaTcpConnectionInit>();
 }
 
+void UaTcpConnectionConnected::onError(UaTcpConnection& fsm)
+{
+    fsm.sendUaConnectionReleaseInd();
+    fsm.transit<UaTcpConnectionInit>();
+}
+
 void UaTcpConnectionConnected::onTimer(UaTcpConnection& fsm)
 {
     fsm.sendUaConnectionReleaseInd();
diff --git a/src/app/ua/transport/server/UaTcpConnectionConnected.hpp b/src/app/ua/transport/server/UaTcpConnectionConnected.hpp
index 2147924..cd71e85 100644
--- a/src/app/ua/transport/server/UaTcpConnectionConnected.hpp
+++ b/src/app/ua/transport/server/UaTcpConnectionConnected.hpp
@@ -24,6 +24,8 @@ public:
 
     void onReceive(UaTcpConnection&, MsgUaConnectionReleaseReq const&) final;
 
+    void onError(UaTcpConnection&) final;
+
     void onTimer(UaTcpConnection&) final;
 
     void onExit(UaTcpConnection&) final;
diff --git a/src/app/ua/transport/server/UaTcpConnectionReceiveHello.cpp b/src/app/ua/transport/server/UaTcpConnectionReceiveHello.cpp
index 20f30d7..da2f269 100644
--- a/src/app/ua/transport/server/UaTcpConnectionReceiveHello.cpp
+++ b/src/app/ua/transport/server/UaTcpConnectionReceiveHello.cpp
@@ -32,6 +32,11 @@ void UaTcpConnectionReceiveHello::onDataReceived(UaTcpConnection& fsm)
     }
 }
 
+void UaTcpConnectionReceiveHello::onError(UaTcpConnection& fsm)
+{
+    fsm.transit<UaTcpConnectionInit>();
+}
+
 void UaTcpConnectionReceiveHello::onTimer(UaTcpConnection& fsm)
 {
     fsm.transit<UaTcpConnectionInit>();
diff --git a/src/app/ua/transport/server/UaTcpConnectionReceiveHello.hpp b/src/app/ua/transport/server/UaTcpConnectionReceiveHello.hpp
index 9f372a4..f100976 100644
--- a/src/app/ua/transport/server/UaTcpConnectionReceiveHello.hpp
+++ b/src/app/ua/transport/server/UaTcpConnectionReceiveHello.hpp
@@ -16,6 +16,8 @@ public:
 
     void onDataReceived(UaTcpConnection&) final;
 
+    void onError(UaTcpConnection&) final;
+
     void onTimer(UaTcpConnection&) final;
 
     void onExit(UaTcpConnection&) final;
-- 
2.43.0


From 63668c755582ee57bd6c575eb8d02e155b00cdbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:21 +0000
Subject: [PATCH 30/70] fix: a second secure channel on a connection leaves the
 first one allocated

---
 .../ua/securechannel/channel/UaServerSecureChannel.cpp | 10 +++++++++-
 .../ua/securechannel/channel/UaServerSecureChannel.hpp |  1 +
 .../channel/UaServerSecureChannelEstablished.cpp       |  7 +++++--
 src/app/ua/transport/server/UaTcpConnection.cpp        |  4 ++++
 .../ua/transport/server/UaTcpConnectionConnected.cpp   |  1 +
 5 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/app/ua/securechannel/channel/UaServerSecureChannel.cpp b/src/app/ua/securechannel/channel/UaServerSecureChannel.cpp
index 1ca060b..29c2900 100644
--- a/src/app/ua/securechannel/channel/UaServerSecureChannel.cpp
+++ b/src/app/ua/securechannel/channel/UaServerSecureChannel.cpp
@@ -249,6 +249,14 @@ UaServerSecureChannel::Result UaServerSecureChannel::receive(MsgUaEncodedMessage
     return Result::done;
 }
 
-
+UaServerSecureChannel::Result UaServerSecureChannel::receive(MsgUaConnectionReleaseInd const& msgInd)
+{
+    if (not connectionId || *connectionId != msgInd.connectionId)
+    {
+        LM(UASC, LE, "Uid-%u, unexpected connectionId", secureChannelId);
+        return Result::error;
+    }
+    return Result::done;
+}
 
 } // namespace app::ua::securechannel
diff --git a/src/app/ua/securechannel/channel/UaServerSecureChannel.hpp b/src/app/ua/securechannel/channel/UaServerSecureChannel.hpp
index c92a950..1542e90 100644
--- a/src/app/ua/securechannel/channel/UaServerSecureChannel.hpp
+++ b/src/app/ua/securechannel/channel/UaServerSecureChannel.hpp
@@ -33,6 +33,7 @@ public:
     Result receive(MsgUaAssociateSecureChannelReq const&);
     Result receive(MsgUaSecuredMessageReceiveInd const&);
     Result receive(MsgUaEncodedMessageSendReq const&);
+    Result receive(MsgUaConnectionReleaseInd const&);
 
     // a message that can not be decoded is an error of the peer
     template <typename MSG>
diff --git a/src/app/ua/securechannel/channel/UaServerSecureChannelEstablished.cpp b/src/app/ua/securechannel/channel/UaServerSecureChannelEstablished.cpp
index 8275222..a388ed7 100644
--- a/src/app/ua/securechannel/channel/UaServerSecureChannelEstablished.cpp
+++ b/src/app/ua/securechannel/channel/UaServerSecureChannelEstablished.cpp
@@ -17,9 +17,12 @@ void UaServerSecureChannelEstablished::onReceive(UaServerSecureChannel& fsm, Msg
     fsm.receive(msg);
 }
 
-void UaServerSecureChannelEstablished::onReceive(UaServerSecureChannel& fsm, MsgUaConnectionReleaseInd const&)
+void UaServerSecureChannelEstablished::onReceive(UaServerSecureChannel& fsm, MsgUaConnectionReleaseInd const& msg)
 {
-    fsm.transit<UaServerSecureChannelInit>();
+    if (UaServerSecureChannel::Result::done == fsm.receive(msg))
+    {
+        fsm.transit<UaServerSecureChannelInit>();
+    }
 }
 
 void UaServerSecureChannelEstablished::onReceive(UaServerSecureChannel& fsm, MsgUaEncodedMessageSendReq const& msg)
diff --git a/src/app/ua/transport/server/UaTcpConnection.cpp b/src/app/ua/transport/server/UaTcpConnection.cpp
index dd606d1..133de12 100644
--- a/src/app/ua/transport/server/UaTcpConnection.cpp
+++ b/src/app/ua/transport/server/UaTcpConnection.cpp
@@ -66,6 +66,10 @@ UaTcpConnection::Result UaTcpConnection::receive(MsgUaSecuredMessageSendReq cons
 
 UaTcpConnection::Result UaTcpConnection::receive(MsgUaOpenSecureChannelRsp const& msg)
 {
+    if (associatedSecureChannelId)
+    {
+        sendUaConnectionReleaseInd();
+    }
     associatedSecureChannelId = msg.secureChannelId;
 
     OpcUaSduBuffer tx;
diff --git a/src/app/ua/transport/server/UaTcpConnectionConnected.cpp b/src/app/ua/transport/server/UaTcpConnectionConnected.cpp
index 0fd8d49..e3c1ae9 100644
--- a/src/app/ua/transport/server/UaTcpConnectionConnected.cpp
+++ b/src/app/ua/transport/server/UaTcpConnectionConnected.cpp
@@ -86,6 +86,7 @@ void UaTcpConnectionConnected::onReceive(UaTcpConnection& fsm, MsgUaSecuredMessa
 
 void UaTcpConnectionConnected::onReceive(UaTcpConnection& fsm, MsgUaConnectionReleaseReq const&)
 {
+    fsm.sendUaConnectionReleaseInd();
     fsm.transit<UaTcpConnectionInit>();
 }
 
-- 
2.43.0


From 8fb7e92b3c0e416eabbc105a8b371ad78cbe8655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:05 +0000
Subject: [PATCH 31/70] fix: a secure channel opened for a connection that is
 gone stays allocated

---
 src/app/ua/transport/server/UaTcpConnection.cpp            | 7 ++++++-
 src/app/ua/transport/server/UaTcpConnection.hpp            | 1 +
 src/app/ua/transport/server/UaTcpConnectionInit.cpp        | 5 +++++
 src/app/ua/transport/server/UaTcpConnectionInit.hpp        | 2 ++
 .../ua/transport/server/UaTcpConnectionReceiveHello.cpp    | 5 +++++
 .../ua/transport/server/UaTcpConnectionReceiveHello.hpp    | 2 ++
 6 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/app/ua/transport/server/UaTcpConnection.cpp b/src/app/ua/transport/server/UaTcpConnection.cpp
index 133de12..ca9e92b 100644
--- a/src/app/ua/transport/server/UaTcpConnection.cpp
+++ b/src/app/ua/transport/server/UaTcpConnection.cpp
@@ -27,9 +27,14 @@ void UaTcpConnection::sendUaConnectionReleaseInd()
         LM(UATL, LE, "Uid-%u, Can not send UaConnectionReleaseInd, secure channel id is undefined", connectionId);
         return;
     }
+    sendUaConnectionReleaseInd(*associatedSecureChannelId);
+}
+
+void UaTcpConnection::sendUaConnectionReleaseInd(UaSecureChannelId secureChannelId)
+{
     reactor::MsgStore<MsgUaConnectionReleaseInd> msgStore;
     msgStore.getMsg().connectionId = connectionId;
-    msgStore.getMsg().secureChannelId = *associatedSecureChannelId;
+    msgStore.getMsg().secureChannelId = secureChannelId;
     Sender::sendMsg(msgStore);
 }
 
diff --git a/src/app/ua/transport/server/UaTcpConnection.hpp b/src/app/ua/transport/server/UaTcpConnection.hpp
index ed37795..bcbadde 100644
--- a/src/app/ua/transport/server/UaTcpConnection.hpp
+++ b/src/app/ua/transport/server/UaTcpConnection.hpp
@@ -65,6 +65,7 @@ public:
     Result sendAcknowledge();
     Result receiveSecuredMessage();
     void sendUaConnectionReleaseInd();
+    void sendUaConnectionReleaseInd(UaSecureChannelId);
 private:
 
     UaConnectionId const connectionId;
diff --git a/src/app/ua/transport/server/UaTcpConnectionInit.cpp b/src/app/ua/transport/server/UaTcpConnectionInit.cpp
index c9a0801..4d16f2d 100644
--- a/src/app/ua/transport/server/UaTcpConnectionInit.cpp
+++ b/src/app/ua/transport/server/UaTcpConnectionInit.cpp
@@ -17,4 +17,9 @@ void UaTcpConnectionInit::onAcceptLink(UaTcpConnection& fsm, reactor::LinkPtr& l
     fsm.transit<UaTcpConnectionReceiveHello>();
 }
 
+void UaTcpConnectionInit::onReceive(UaTcpConnection& fsm, MsgUaOpenSecureChannelRsp const& msg)
+{
+    fsm.sendUaConnectionReleaseInd(msg.secureChannelId);
+}
+
 } // namespace app::ua::transport
diff --git a/src/app/ua/transport/server/UaTcpConnectionInit.hpp b/src/app/ua/transport/server/UaTcpConnectionInit.hpp
index 210adfa..3bc5f79 100644
--- a/src/app/ua/transport/server/UaTcpConnectionInit.hpp
+++ b/src/app/ua/transport/server/UaTcpConnectionInit.hpp
@@ -14,6 +14,8 @@ public:
 
     void onEnter(UaTcpConnection&) final;
 
+    void onReceive(UaTcpConnection&, MsgUaOpenSecureChannelRsp const&) final;
+
     void onAcceptLink(UaTcpConnection&, reactor::LinkPtr&) final;
 };
 
diff --git a/src/app/ua/transport/server/UaTcpConnectionReceiveHello.cpp b/src/app/ua/transport/server/UaTcpConnectionReceiveHello.cpp
index da2f269..61469e1 100644
--- a/src/app/ua/transport/server/UaTcpConnectionReceiveHello.cpp
+++ b/src/app/ua/transport/server/UaTcpConnectionReceiveHello.cpp
@@ -47,4 +47,9 @@ void UaTcpConnectionReceiveHello::onExit(UaTcpConnection& fsm)
     fsm.stopTimer();
 }
 
+void UaTcpConnectionReceiveHello::onReceive(UaTcpConnection& fsm, MsgUaOpenSecureChannelRsp const& msg)
+{
+    fsm.sendUaConnectionReleaseInd(msg.secureChannelId);
+}
+
 } // namespace app::ua::transport
diff --git a/src/app/ua/transport/server/UaTcpConnectionReceiveHello.hpp b/src/app/ua/transport/server/UaTcpConnectionReceiveHello.hpp
index f100976..09f55bd 100644
--- a/src/app/ua/transport/server/UaTcpConnectionReceiveHello.hpp
+++ b/src/app/ua/transport/server/UaTcpConnectionReceiveHello.hpp
@@ -14,6 +14,8 @@ public:
 
     void onEnter(UaTcpConnection&) final;
 
+    void onReceive(UaTcpConnection&, MsgUaOpenSecureChannelRsp const&) final;
+
     void onDataReceived(UaTcpConnection&) final;
 
     void onError(UaTcpConnection&) final;
-- 
2.43.0


From 5999bf94f7953d5b6f5d15dd056bdb1099b96305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:05 +0000
Subject: [PATCH 32/70] fix: a connection that gets no timer stays allocated

---
 src/app/ua/transport/server/UaTcpConnectionInit.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/app/ua/transport/server/UaTcpConnectionInit.cpp b/src/app/ua/transport/server/UaTcpConnectionInit.cpp
index 4d16f2d..9a7c18d 100644
--- a/src/app/ua/transport/server/UaTcpConnectionInit.cpp
+++ b/src/app/ua/transport/server/UaTcpConnectionInit.cpp
@@ -13,7 +13,16 @@ void UaTcpConnectionInit::onEnter(UaTcpConnection& fsm)
 void UaTcpConnectionInit::onAcceptLink(UaTcpConnection& fsm, reactor::LinkPtr& link)
 {
     fsm.acceptLink(link);
-    fsm.allocTimer();
+    try
+    {
+        fsm.allocTimer();
+    }
+    catch (std::exception const& e)
+    {
+        LM(UATL, LE, "Can not alloc timer: %s", e.what());
+        fsm.release();
+        return;
+    }
     fsm.transit<UaTcpConnectionReceiveHello>();
 }
 
-- 
2.43.0


From 24f181180a594c53fbe65aec5b5a7e45caca77b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:05 +0000
Subject: [PATCH 33/70] fix: a session can be closed from a secure channel it
 is not bound to

---
 src/app/ua/service/session/UaSession.cpp          | 6 ++++++
 src/app/ua/service/session/UaSessionActivated.cpp | 6 ++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/app/ua/service/session/UaSession.cpp b/src/app/ua/service/session/UaSession.cpp
index f963565..311f313 100644
--- a/src/app/ua/service/session/UaSession.cpp
+++ b/src/app/ua/service/session/UaSession.cpp
@@ -86,6 +86,12 @@ UaSession::Result UaSession::receive(UaEncodedMessageHdr const& hdr, UaActivateS
 
 UaSession::Result UaSession::receive(UaEncodedMessageHdr const& hdr, UaCloseSessionReq const& req)
 {
+    if (secureChannelId && *secureChannelId != hdr.secureChannelId)
+    {
+        LM(UASRV, LE, "Uid=%u, unexpected secure channel Id", sessionId);
+        return Result::fail;
+    }
+
     UaCloseSessionRspCont rsp;
     rsp.msg.responseHdr.timestamp = utils::getCurrentDateTime();
     rsp.msg.responseHdr.requestHandle = req.requestHdr.requestHandle;
diff --git a/src/app/ua/service/session/UaSessionActivated.cpp b/src/app/ua/service/session/UaSessionActivated.cpp
index 51027ee..64be2e5 100644
--- a/src/app/ua/service/session/UaSessionActivated.cpp
+++ b/src/app/ua/service/session/UaSessionActivated.cpp
@@ -12,8 +12,10 @@ void UaSessionActivated::onReceive(UaSession& fsm, UaEncodedMessageHdr const& hd
 
 void UaSessionActivated::onReceive(UaSession& fsm, UaEncodedMessageHdr const& hdr, UaCloseSessionReq const& req)
 {
-    fsm.receive(hdr, req);
-    fsm.transit<UaSessionInit>();
+    if (UaSession::Result::sucess == fsm.receive(hdr, req))
+    {
+        fsm.transit<UaSessionInit>();
+    }
 }
 
 void UaSessionActivated::onReceive(UaSession& fsm, UaEncodedMessageHdr const& hdr, UaServiceHandler const& handler)
-- 
2.43.0


From f4515013e99a69aa1e1dd20a6b0f6b7871fc26d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:05 +0000
Subject: [PATCH 34/70] fix: a message sent in part only is reported as sent

---
 src/app/common/reactor/Link.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/app/common/reactor/Link.cpp b/src/app/common/reactor/Link.cpp
index 1445f71..d0b006c 100644
--- a/src/app/common/reactor/Link.cpp
+++ b/src/app/common/reactor/Link.cpp
@@ -104,7 +104,7 @@ int Link::send(void const* data, std::size_t len)
     {
         return -1;
     }
-    if (-1 == ::send(fd, data, len, MSG_NOSIGNAL))
+    if (static_cast<ssize_t>(len) != ::send(fd, data, len, MSG_NOSIGNAL))
     {
         LM(GEN, LE, "write errno: %d", errno);
         return -1;
-- 
2.43.0


From 63bbc828faeeeb982e78412a4b07847bc0f3ae31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:07 +0000
Subject: [PATCH 35/70] fix: Modbus frame buffer is read past the received data
 and written past its end

---
 src/app/modbus/PduBuffer.hpp | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/app/modbus/PduBuffer.hpp b/src/app/modbus/PduBuffer.hpp
index c331aed..d926c97 100644
--- a/src/app/modbus/PduBuffer.hpp
+++ b/src/app/modbus/PduBuffer.hpp
@@ -1,6 +1,8 @@
 #pragma once
 
 #include <cstring>
+#include <stdexcept>
+#include <string>
 #include <sstream>
 #include <iomanip>
 
@@ -35,36 +37,48 @@ public:
 
     unsigned read()
     {
+        if (pos >= len)
+        {
+            throw std::out_of_range("PduBuffer::read");
+        }
         return buf[pos++];
     }
     
     unsigned readLe()
     {
-        unsigned ll = buf[pos++];
-        unsigned hh = buf[pos++];
+        unsigned ll = read();
+        unsigned hh = read();
         return (hh << 8) | ll;
     }
 
     unsigned readBe()
     {
-        unsigned hh = buf[pos++];
-        unsigned ll = buf[pos++];
+        unsigned hh = read();
+        unsigned ll = read();
         return (hh << 8) | ll;
     }
     
     void write(unsigned ch)
     {
+        if (full())
+        {
+            throw std::out_of_range("PduBuffer::write");
+        }
         buf[len++] = ch;
     }
 
     void writeBe(unsigned ch)
     {
-        buf[len++] = ch >> 8;
-        buf[len++] = ch;
+        write(ch >> 8);
+        write(ch);
     }
 
     void seek(unsigned val)
     {
+        if (val > capacity())
+        {
+            throw std::out_of_range("PduBuffer::seek");
+        }
         len += val;
     }
 
-- 
2.43.0


From 1e38e399c2a5e62250b066a8ffe117ca9942264f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:07 +0000
Subject: [PATCH 36/70] fix: a Modbus frame is taken for complete six bytes too
 early

---
 src/app/modbus/ModbusCodec.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/app/modbus/ModbusCodec.cpp b/src/app/modbus/ModbusCodec.cpp
index ad35108..47d5018 100644
--- a/src/app/modbus/ModbusCodec.cpp
+++ b/src/app/modbus/ModbusCodec.cpp
@@ -51,7 +51,7 @@ bool ModbusCodec::isAduHdrReceived() const
 
 bool ModbusCodec::isAduReceived() const
 {
-    return buf.size() >= aduPktLen();
+    return buf.size() >= (aduPktLen() + aduHdrLen);
 }
 
 bool ModbusCodec::isAduDataLenValid() const
-- 
2.43.0


From 6f9a31b2ee51907da91a9e6658644c2bcf5be11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:07 +0000
Subject: [PATCH 37/70] fix: a register write of any size is encoded before its
 size is checked

---
 src/app/modbus/ModbusCodec.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/app/modbus/ModbusCodec.cpp b/src/app/modbus/ModbusCodec.cpp
index 47d5018..50d2139 100644
--- a/src/app/modbus/ModbusCodec.cpp
+++ b/src/app/modbus/ModbusCodec.cpp
@@ -132,6 +132,11 @@ bool ModbusCodec::encode(AduRequest const& adu)
             LM(MODBUS, LE, "ADU encode, unexpected number of bytes");
             return false;
         }
+        if (pduFuncCodeLen + 2 + 2 + numBytesLen + adu.numBytes > maxPduLen)
+        {
+            LM(MODBUS, LE, "ADU encode, unexpected number of items(%u) in request", adu.numItems);
+            return false;
+        }
         buf.writeBe(adu.transactId);
         buf.writeBe(modbusProtocolId);
         buf.writeBe(1 + 1 + 2 + 2 + 1 + adu.numBytes);
-- 
2.43.0


From e9d58a4295f19a4f5d4bf0769c16bde9699f366f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:07 +0000
Subject: [PATCH 38/70] fix: short Modbus frames are decoded past their end and
 fields keep the values of the previous request

---
 src/app/modbus/ModbusCodec.cpp | 28 ++++++++++++++++++++++++++++
 src/app/modbus/ModbusCodec.hpp |  1 +
 2 files changed, 29 insertions(+)

diff --git a/src/app/modbus/ModbusCodec.cpp b/src/app/modbus/ModbusCodec.cpp
index 50d2139..515b935 100644
--- a/src/app/modbus/ModbusCodec.cpp
+++ b/src/app/modbus/ModbusCodec.cpp
@@ -168,6 +168,14 @@ bool ModbusCodec::encode(AduRequest const& adu)
 
 bool ModbusCodec::decode(AduRequest& adu)
 {
+    if (not isAduHdrReceived() || not isAduValid() || aduPktLen() < aduMinPktLen)
+    {
+        LM(MODBUS, LW, "ADU decode, unexpected length of packet");
+        return false;
+    }
+    adu.startItem = 0;
+    adu.numItems = 0;
+    adu.numBytes = 0;
     adu.transactId = buf.readBe();
     if (modbusProtocolId != buf.readBe())
     {
@@ -219,6 +227,11 @@ bool ModbusCodec::decode(AduRequest& adu)
     break;
     case ModbusFunction::presetMultipleRegisters:
     {
+        if (pktLen < 7)
+        {
+            LM(MODBUS, LW, "ADU decode, unexpected length of packet %u", pktLen);
+            return false;
+        }
         adu.startItem = buf.readBe();
         adu.numItems = buf.readBe();
         adu.numBytes = buf.read();
@@ -340,6 +353,11 @@ bool ModbusCodec::encode(AduRespond const& adu)
 
 bool ModbusCodec::decode(AduRespond& adu)
 {
+    if (not isAduHdrReceived() || not isAduValid() || aduPktLen() < aduMinPktLen)
+    {
+        LM(MODBUS, LW, "ADU decode, unexpected length of packet");
+        return false;
+    }
     adu.transactId = buf.readBe();
     if (modbusProtocolId != buf.readBe())
     {
@@ -354,12 +372,22 @@ bool ModbusCodec::decode(AduRespond& adu)
     {
     case ModbusFunction::modbusError:
     {
+        if (pktLen != 3)
+        {
+            LM(MODBUS, LW, "ADU decode, unexpected length of packet %u", pktLen);
+            return false;
+        }
         adu.error = fromUint8<ModbusError>(buf.read());
     }
     break;
     case ModbusFunction::readHoldingRegisters:
     case ModbusFunction::readInputRegisters:
     {
+        if (pktLen < 3)
+        {
+            LM(MODBUS, LW, "ADU decode, unexpected length of packet %u", pktLen);
+            return false;
+        }
         adu.numBytes = buf.read();
         if (pktLen != adu.numBytes + 3)
         {
diff --git a/src/app/modbus/ModbusCodec.hpp b/src/app/modbus/ModbusCodec.hpp
index c3583e9..fd2ba65 100644
--- a/src/app/modbus/ModbusCodec.hpp
+++ b/src/app/modbus/ModbusCodec.hpp
@@ -39,6 +39,7 @@ private:
     static constexpr unsigned aduFuncCodeOffset = 7;
     static constexpr unsigned aduRspErrorCodeOffset = 8;
     static constexpr unsigned aduHdrLen = 6;
+    static constexpr unsigned aduMinPktLen = 2;
 
     PduBuffer& buf;
 };
-- 
2.43.0


From 4ec417995da392d6677d9486ef4004ffb8d89d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:07 +0000
Subject: [PATCH 39/70] fix: a Modbus request is not answered when its reply
 announces an invalid length

---
 src/app/modbus/client/ModbusClient.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/app/modbus/client/ModbusClient.cpp b/src/app/modbus/client/ModbusClient.cpp
index b0f86a2..230c6cc 100644
--- a/src/app/modbus/client/ModbusClient.cpp
+++ b/src/app/modbus/client/ModbusClient.cpp
@@ -84,6 +84,7 @@ Status ModbusClient::receive()
     if (pduBuf.size() > maxAduLen)
     {
         LM(MODBUS, LW, "Client-%u, received ADU is invalid", uid);
+        provideRspTimeout();
         return Status::done;
     }
 
@@ -117,6 +118,7 @@ Status ModbusClient::receive()
     if (not codec.isAduDataLenValid())
     {
         LM(MODBUS, LW, "Client-%u, ADU data len is invalid", uid);
+        provideRspError(aduStorage.front());
         return Status::done;
     }
 
-- 
2.43.0


From 59ee4e69a2b153d30225a52d6b98c15793276180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:55 +0000
Subject: [PATCH 40/70] fix: a late Modbus reply answers the next request,
 which is then answered again

---
 src/app/modbus/client/ModbusClient.cpp          | 17 +++++++++++++++++
 src/app/modbus/client/ModbusClient.hpp          |  2 ++
 src/app/modbus/client/ModbusClientConnected.cpp |  2 +-
 src/app/modbus/client/ModbusClientSend.cpp      |  2 +-
 4 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/app/modbus/client/ModbusClient.cpp b/src/app/modbus/client/ModbusClient.cpp
index 230c6cc..f7384b4 100644
--- a/src/app/modbus/client/ModbusClient.cpp
+++ b/src/app/modbus/client/ModbusClient.cpp
@@ -187,6 +187,23 @@ Status ModbusClient::receive()
     return Status::done;
 }
 
+Status ModbusClient::discard()
+{
+    pduBuf.reset();
+    switch (link->receive(pduBuf.end(), pduBuf.capacity()).status)
+    {
+    case reactor::LinkResult::ok:
+        LM(MODBUS, LW, "Client-%u, received ADU is unexpected", uid);
+        return Status::noerror;
+    case reactor::LinkResult::na:
+        return Status::noerror;
+    case reactor::LinkResult::closed:
+    case reactor::LinkResult::error:
+    break;
+    }
+    return Status::error;
+}
+
 void ModbusClient::receivePostaction()
 {
     if (aduStorage.empty())
diff --git a/src/app/modbus/client/ModbusClient.hpp b/src/app/modbus/client/ModbusClient.hpp
index b8782ac..b4bb010 100644
--- a/src/app/modbus/client/ModbusClient.hpp
+++ b/src/app/modbus/client/ModbusClient.hpp
@@ -57,6 +57,8 @@ public:
 
     Status receive();
 
+    Status discard();
+
     void receivePostaction();
 
     void provideRspTimeout();
diff --git a/src/app/modbus/client/ModbusClientConnected.cpp b/src/app/modbus/client/ModbusClientConnected.cpp
index 6315cd6..27d3d3d 100644
--- a/src/app/modbus/client/ModbusClientConnected.cpp
+++ b/src/app/modbus/client/ModbusClientConnected.cpp
@@ -15,7 +15,7 @@ void ModbusClientConnected::onReceiveTransactionReq(ModbusClientFsm& fsm)
 
 void ModbusClientConnected::onDataReceived(ModbusClientFsm& fsm)
 {
-    switch (fsm.getEntity().receive())
+    switch (fsm.getEntity().discard())
     {
     case Status::error:
     {
diff --git a/src/app/modbus/client/ModbusClientSend.cpp b/src/app/modbus/client/ModbusClientSend.cpp
index 28deaac..23d5e23 100644
--- a/src/app/modbus/client/ModbusClientSend.cpp
+++ b/src/app/modbus/client/ModbusClientSend.cpp
@@ -19,7 +19,7 @@ void ModbusClientSend::onReceiveTransactionReq(ModbusClientFsm&)
 
 void ModbusClientSend::onDataReceived(ModbusClientFsm& fsm)
 {
-    switch (fsm.getEntity().receive())
+    switch (fsm.getEntity().discard())
     {
     case Status::error:
     {
-- 
2.43.0


From 9d438424dcbff7210b8659583c7d7b45773d775b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:55 +0000
Subject: [PATCH 41/70] fix: queued Modbus requests are not answered when the
 link fails

---
 src/app/modbus/client/ModbusClientConnected.cpp | 7 +++++++
 src/app/modbus/client/ModbusClientConnected.hpp | 2 ++
 src/app/modbus/client/ModbusClientReceive.cpp   | 7 +++++++
 src/app/modbus/client/ModbusClientReceive.hpp   | 2 ++
 src/app/modbus/client/ModbusClientSend.cpp      | 7 +++++++
 src/app/modbus/client/ModbusClientSend.hpp      | 2 ++
 6 files changed, 27 insertions(+)

diff --git a/src/app/modbus/client/ModbusClientConnected.cpp b/src/app/modbus/client/ModbusClientConnected.cpp
index 27d3d3d..d9b732f 100644
--- a/src/app/modbus/client/ModbusClientConnected.cpp
+++ b/src/app/modbus/client/ModbusClientConnected.cpp
@@ -32,4 +32,11 @@ void ModbusClientConnected::onDataReceived(ModbusClientFsm& fsm)
     }
 }
 
+void ModbusClientConnected::onError(ModbusClientFsm& fsm)
+{
+    fsm.getEntity().provideRspError();
+    fsm.getEntity().close();
+    fsm.transit<ModbusClientBackoff>();
+}
+
 } // namespace app::modbus
diff --git a/src/app/modbus/client/ModbusClientConnected.hpp b/src/app/modbus/client/ModbusClientConnected.hpp
index a5d1594..b8a9da3 100644
--- a/src/app/modbus/client/ModbusClientConnected.hpp
+++ b/src/app/modbus/client/ModbusClientConnected.hpp
@@ -16,6 +16,8 @@ public:
 
     void onDataReceived(ModbusClientFsm&) final;
 
+    void onError(ModbusClientFsm&) final;
+
 private:
 
 };
diff --git a/src/app/modbus/client/ModbusClientReceive.cpp b/src/app/modbus/client/ModbusClientReceive.cpp
index ce289d2..b3793dd 100644
--- a/src/app/modbus/client/ModbusClientReceive.cpp
+++ b/src/app/modbus/client/ModbusClientReceive.cpp
@@ -45,6 +45,13 @@ void ModbusClientReceive::onDataReceived(ModbusClientFsm& fsm)
     }
 }
 
+void ModbusClientReceive::onError(ModbusClientFsm& fsm)
+{
+    fsm.getEntity().provideRspError();
+    fsm.getEntity().close();
+    fsm.transit<ModbusClientBackoff>();
+}
+
 void ModbusClientReceive::onTimer(ModbusClientFsm& fsm)
 {
     LM(MODBUS, LI, "onTimer");
diff --git a/src/app/modbus/client/ModbusClientReceive.hpp b/src/app/modbus/client/ModbusClientReceive.hpp
index 5fbcb19..5f6a649 100644
--- a/src/app/modbus/client/ModbusClientReceive.hpp
+++ b/src/app/modbus/client/ModbusClientReceive.hpp
@@ -18,6 +18,8 @@ public:
 
     void onDataReceived(ModbusClientFsm&) final;
 
+    void onError(ModbusClientFsm&) final;
+
     void onTimer(ModbusClientFsm&) final;
 
     void onExit(ModbusClientFsm&) final;
diff --git a/src/app/modbus/client/ModbusClientSend.cpp b/src/app/modbus/client/ModbusClientSend.cpp
index 23d5e23..8a4976c 100644
--- a/src/app/modbus/client/ModbusClientSend.cpp
+++ b/src/app/modbus/client/ModbusClientSend.cpp
@@ -36,6 +36,13 @@ void ModbusClientSend::onDataReceived(ModbusClientFsm& fsm)
     }
 }
 
+void ModbusClientSend::onError(ModbusClientFsm& fsm)
+{
+    fsm.getEntity().provideRspError();
+    fsm.getEntity().close();
+    fsm.transit<ModbusClientBackoff>();
+}
+
 void ModbusClientSend::onTimer(ModbusClientFsm& fsm)
 {
     switch (fsm.getEntity().send())
diff --git a/src/app/modbus/client/ModbusClientSend.hpp b/src/app/modbus/client/ModbusClientSend.hpp
index 55ef2f9..51bada2 100644
--- a/src/app/modbus/client/ModbusClientSend.hpp
+++ b/src/app/modbus/client/ModbusClientSend.hpp
@@ -18,6 +18,8 @@ public:
 
     void onDataReceived(ModbusClientFsm&) final;
 
+    void onError(ModbusClientFsm&) final;
+
     void onTimer(ModbusClientFsm&) final;
 
     void onExit(ModbusClientFsm&) final;
-- 
2.43.0


From 9b6bd038171586b7e49f72819c809af62375bca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:55 +0000
Subject: [PATCH 42/70] fix: pending Modbus requests are dropped unanswered
 when their client is released

---
 src/app/modbus/client/ModbusClient.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/app/modbus/client/ModbusClient.cpp b/src/app/modbus/client/ModbusClient.cpp
index f7384b4..0822f33 100644
--- a/src/app/modbus/client/ModbusClient.cpp
+++ b/src/app/modbus/client/ModbusClient.cpp
@@ -24,6 +24,7 @@ ModbusClient::ModbusClient(Init const& init)
 ModbusClient::~ModbusClient()
 {
     LM(MODBUS, LD, "~ModbusClient");
+    provideRspError();
 }
 
 void ModbusClient::connect()
-- 
2.43.0


From 75fe4c59d8cd6f11ffaaf1c83753101a15b0541b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:55 +0000
Subject: [PATCH 43/70] fix: a failed link does not end the Modbus session

---
 src/app/modbus/server/session/ModbusSession.cpp              | 4 +++-
 src/app/modbus/server/session/ModbusSessionConnected.cpp     | 5 +++++
 src/app/modbus/server/session/ModbusSessionConnected.hpp     | 2 ++
 src/app/modbus/server/session/ModbusSessionState.hpp         | 2 ++
 .../modbus/server/session/ModbusSessionWaitModbusAduRsp.cpp  | 5 +++++
 .../modbus/server/session/ModbusSessionWaitModbusAduRsp.hpp  | 2 ++
 6 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/app/modbus/server/session/ModbusSession.cpp b/src/app/modbus/server/session/ModbusSession.cpp
index d34c798..9e0ad3e 100644
--- a/src/app/modbus/server/session/ModbusSession.cpp
+++ b/src/app/modbus/server/session/ModbusSession.cpp
@@ -52,8 +52,10 @@ void ModbusSession::onLinkEvent(reactor::LinkEvent ev)
     case reactor::LinkEvent::data:
         fsm.getState().onDataReceived(fsm);
     break;
-    case reactor::LinkEvent::connected:
     case reactor::LinkEvent::error:
+        fsm.getState().onError(fsm);
+    break;
+    case reactor::LinkEvent::connected:
         LM(MODBUS, LE, "Session-%u, unexpected", uid);
     break;
     }
diff --git a/src/app/modbus/server/session/ModbusSessionConnected.cpp b/src/app/modbus/server/session/ModbusSessionConnected.cpp
index f80e526..f8dffd9 100644
--- a/src/app/modbus/server/session/ModbusSessionConnected.cpp
+++ b/src/app/modbus/server/session/ModbusSessionConnected.cpp
@@ -40,6 +40,11 @@ void ModbusSessionConnected::onDataReceived(ModbusSessionFsm& fsm)
     }
 }
 
+void ModbusSessionConnected::onError(ModbusSessionFsm& fsm)
+{
+    fsm.transit<ModbusSessionInit>();
+}
+
 void ModbusSessionConnected::onTimer(ModbusSessionFsm& fsm)
 {
     fsm.transit<ModbusSessionInit>();
diff --git a/src/app/modbus/server/session/ModbusSessionConnected.hpp b/src/app/modbus/server/session/ModbusSessionConnected.hpp
index afee860..8ad589b 100644
--- a/src/app/modbus/server/session/ModbusSessionConnected.hpp
+++ b/src/app/modbus/server/session/ModbusSessionConnected.hpp
@@ -16,6 +16,8 @@ public:
 
     void onDataReceived(ModbusSessionFsm&) final;
 
+    void onError(ModbusSessionFsm&) final;
+
     void onTimer(ModbusSessionFsm&) final;
 
     void onExit(ModbusSessionFsm&) final;
diff --git a/src/app/modbus/server/session/ModbusSessionState.hpp b/src/app/modbus/server/session/ModbusSessionState.hpp
index 57cca27..36a9f26 100644
--- a/src/app/modbus/server/session/ModbusSessionState.hpp
+++ b/src/app/modbus/server/session/ModbusSessionState.hpp
@@ -21,6 +21,8 @@ public:
 
     virtual void onModbusAduRspReceive(ModbusSessionFsm&, MsgModbusAduRsp const&) { LM(MODBUS, LE, "Unexpected call"); }
 
+    virtual void onError(ModbusSessionFsm&) { LM(MODBUS, LE, "Unexpected call"); }
+
     virtual void onTimer(ModbusSessionFsm&) { LM(MODBUS, LE, "Unexpected call"); }
 
     virtual void onEnter(ModbusSessionFsm&) {}
diff --git a/src/app/modbus/server/session/ModbusSessionWaitModbusAduRsp.cpp b/src/app/modbus/server/session/ModbusSessionWaitModbusAduRsp.cpp
index 1f87949..4c5154e 100644
--- a/src/app/modbus/server/session/ModbusSessionWaitModbusAduRsp.cpp
+++ b/src/app/modbus/server/session/ModbusSessionWaitModbusAduRsp.cpp
@@ -51,6 +51,11 @@ void ModbusSessionWaitModbusAduRsp::onModbusAduRspReceive(ModbusSessionFsm& fsm,
     }
 }
 
+void ModbusSessionWaitModbusAduRsp::onError(ModbusSessionFsm& fsm)
+{
+    fsm.transit<ModbusSessionInit>();
+}
+
 void ModbusSessionWaitModbusAduRsp::onTimer(ModbusSessionFsm& fsm)
 {
     LM(MODBUS, LE, "onTimer");
diff --git a/src/app/modbus/server/session/ModbusSessionWaitModbusAduRsp.hpp b/src/app/modbus/server/session/ModbusSessionWaitModbusAduRsp.hpp
index 9c10348..fc138c2 100644
--- a/src/app/modbus/server/session/ModbusSessionWaitModbusAduRsp.hpp
+++ b/src/app/modbus/server/session/ModbusSessionWaitModbusAduRsp.hpp
@@ -16,6 +16,8 @@ public:
 
     void onDataReceived(ModbusSessionFsm&) final;
 
+    void onError(ModbusSessionFsm&) final;
+
     void onModbusAduRspReceive(ModbusSessionFsm&, MsgModbusAduRsp const&) final;
 
     void onTimer(ModbusSessionFsm&) final;
-- 
2.43.0


From ccf392fa1efdd0a69b3012b00360a60145079b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:55 +0000
Subject: [PATCH 44/70] fix: a malformed Modbus request is waited for as if it
 was outstanding

---
 src/app/modbus/server/session/ModbusSession.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/app/modbus/server/session/ModbusSession.cpp b/src/app/modbus/server/session/ModbusSession.cpp
index 9e0ad3e..02e9773 100644
--- a/src/app/modbus/server/session/ModbusSession.cpp
+++ b/src/app/modbus/server/session/ModbusSession.cpp
@@ -88,7 +88,7 @@ Result ModbusSession::receive()
     if (pduBuf.size() > maxAduLen)
     {
         LM(MODBUS, LW, "Client-%u, received ADU is invalid", uid);
-        return Result::done;
+        return Result::error;
     }
 
     auto const& result = link->receive(pduBuf.end(), pduBuf.capacity());
@@ -126,7 +126,7 @@ Result ModbusSession::receive()
     {
         LM(MODBUS, LW, "Session-%u, PDU is invalid", uid);
         // TODO provide error to client
-        return Result::done;
+        return Result::error;
     }
 
     LM(MODBUS, LD, "Session-%u, RX PDU %s", uid, pduBuf.toString().c_str());
@@ -135,7 +135,7 @@ Result ModbusSession::receive()
     {
         LM(MODBUS, LW, "Session-%u, ADU decode error", uid);
         // TODO provide error to client
-        return Result::done;
+        return Result::error;
     }
 
     reactor::MsgStore<MsgModbusAduReq> msgStore;
-- 
2.43.0


From 899990010ef3b14e5537e1bb3a8f6d6d4d174b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:55 +0000
Subject: [PATCH 45/70] fix: data received while a Modbus answer is awaited
 replaces the outstanding request

---
 .../session/ModbusSessionWaitModbusAduRsp.cpp     | 15 ++-------------
 1 file changed, 2 insertions(+), 13 deletions(-)

diff --git a/src/app/modbus/server/session/ModbusSessionWaitModbusAduRsp.cpp b/src/app/modbus/server/session/ModbusSessionWaitModbusAduRsp.cpp
index 4c5154e..32f9a7a 100644
--- a/src/app/modbus/server/session/ModbusSessionWaitModbusAduRsp.cpp
+++ b/src/app/modbus/server/session/ModbusSessionWaitModbusAduRsp.cpp
@@ -14,19 +14,8 @@ void ModbusSessionWaitModbusAduRsp::onEnter(ModbusSessionFsm& fsm)
 
 void ModbusSessionWaitModbusAduRsp::onDataReceived(ModbusSessionFsm& fsm)
 {
-    switch (fsm.getEntity().receive())
-    {
-    case Result::error:
-    {
-        fsm.transit<ModbusSessionInit>();
-    }
-    break;
-    default:
-    {
-        LM(MODBUS, LE, "Unexpected");
-    }
-    break;
-    }
+    // one request at a time, further data ends the session as a closed link does
+    fsm.transit<ModbusSessionInit>();
 }
 
 void ModbusSessionWaitModbusAduRsp::onModbusAduRspReceive(ModbusSessionFsm& fsm, MsgModbusAduRsp const& rsp)
-- 
2.43.0


From 8a3b279194970a6c36f0802e67be39ded3e4696e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:55 +0000
Subject: [PATCH 46/70] fix: an answer of any length is copied into a Modbus
 response

---
 src/app/modbus/server/session/ModbusSession.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/app/modbus/server/session/ModbusSession.cpp b/src/app/modbus/server/session/ModbusSession.cpp
index 02e9773..566bf56 100644
--- a/src/app/modbus/server/session/ModbusSession.cpp
+++ b/src/app/modbus/server/session/ModbusSession.cpp
@@ -170,6 +170,12 @@ Result ModbusSession::send(MsgModbusAduRsp const& rsp)
         return Result::done;
     }
 
+    if (rsp.numBytes > sizeof(AduRespond::data))
+    {
+        LM(MODBUS, LE, "Session-%u, number of bytes is unexpected %u", uid, rsp.numBytes);
+        return Result::done;
+    }
+
     AduRespond aduRsp;
     aduRsp.transactId = rsp.transactId;
     aduRsp.func = (rsp.error != ModbusError::noerror) ? ModbusFunction::modbusError : storedAdu.func;
-- 
2.43.0


From db36ceffeae00b460c68560b2d537c88b8c0f32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:55 +0000
Subject: [PATCH 47/70] fix: session ids of Modbus answers index the pool
 unchecked

---
 src/app/modbus/server/ModbusSessionPool.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/app/modbus/server/ModbusSessionPool.cpp b/src/app/modbus/server/ModbusSessionPool.cpp
index 5afdde0..72f9548 100644
--- a/src/app/modbus/server/ModbusSessionPool.cpp
+++ b/src/app/modbus/server/ModbusSessionPool.cpp
@@ -38,6 +38,6 @@ void ModbusSessionPool::free(ModbusSession::Uid uid)
 
 ModbusSession& ModbusSessionPool::get(ModbusSession::Uid uid) const
 {
-    return *sessions[uid];
+    return *sessions.at(uid);
 }
 } // namespace app::modbus
-- 
2.43.0


From 3b8c59998bc2057ab82a696e229b9d31a578e48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:55 +0000
Subject: [PATCH 48/70] fix: a Modbus session that can not be set up stays
 allocated

---
 src/app/modbus/server/ModbusServer.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/app/modbus/server/ModbusServer.cpp b/src/app/modbus/server/ModbusServer.cpp
index a2f4e22..46a503a 100644
--- a/src/app/modbus/server/ModbusServer.cpp
+++ b/src/app/modbus/server/ModbusServer.cpp
@@ -52,8 +52,16 @@ void ModbusServer::onAcceptEvent()
     }
 
     ModbusSession& session = sessionPool.get(uid);
-    session.prepare(id);
-    acceptor->accept(session.getLink());
+    try
+    {
+        session.prepare(id);
+        acceptor->accept(session.getLink());
+    }
+    catch (...)
+    {
+        session.releaseSession();
+        throw;
+    }
     session.start();
 }
 
-- 
2.43.0


From e31338c1f70c4310161e93d46c2c1879db8f80c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:55 +0000
Subject: [PATCH 49/70] fix: stopping a controller that is not started
 dereferences a null pointer

---
 src/app/controller/ControllerComponent.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/app/controller/ControllerComponent.cpp b/src/app/controller/ControllerComponent.cpp
index cd46b0c..a3d8fc0 100644
--- a/src/app/controller/ControllerComponent.cpp
+++ b/src/app/controller/ControllerComponent.cpp
@@ -49,9 +49,11 @@ void ControllerComponent::receive(MsgControllerStartReq const& req)
 void ControllerComponent::receive(MsgControllerStopReq const& req)
 {
     LM(CTRL, LD, "ControllerStopReq received");
-    modbus->receive(req);
+    if (modbus)
+        modbus->receive(req);
     modbus.reset();
-    opcUa->getState().onReceive(*opcUa, req);
+    if (opcUa)
+        opcUa->getState().onReceive(*opcUa, req);
     opcUa.reset();
 }
 
-- 
2.43.0


From 4316ce390c993519ea5613d7af9027edd962b2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:55 +0000
Subject: [PATCH 50/70] fix: long log messages overrun the stack

---
 src/app/common/logger/Logger.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/app/common/logger/Logger.hpp b/src/app/common/logger/Logger.hpp
index 6c7f6f7..cd9e4d5 100644
--- a/src/app/common/logger/Logger.hpp
+++ b/src/app/common/logger/Logger.hpp
@@ -35,7 +35,7 @@ enum class LogLevel
     if (app::LogLevel::LM_LEVEL >= app::Logger::getInst().getTaskLogLevel(app::LogTask::LM_TASK)) \
     {\
         char temporary___[1024];\
-        sprintf(temporary___, __VA_ARGS__);\
+        snprintf(temporary___, sizeof(temporary___), __VA_ARGS__);\
         app::Logger::getInst().dispatch(temporary___, app::LogLevel::LM_LEVEL, app::LogTask::LM_TASK, __FILE__, __LINE__);\
     }\
 }
-- 
2.43.0


From 5b0071d31c9a3231888fe47bf463197343cc7b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:55 +0000
Subject: [PATCH 51/70] fix: sending to a missing component modifies the
 component map from any thread

---
 src/app/common/reactor/ReactorManager.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/app/common/reactor/ReactorManager.cpp b/src/app/common/reactor/ReactorManager.cpp
index a3454bd..0e4492d 100644
--- a/src/app/common/reactor/ReactorManager.cpp
+++ b/src/app/common/reactor/ReactorManager.cpp
@@ -22,13 +22,13 @@ ReactorManager::~ReactorManager()
 
 void ReactorManager::send(MsgInterface const& msg)
 {
-    auto& comp = components[msg.getCompId()];
-    if (nullptr == comp)
+    auto const it = components.find(msg.getCompId());
+    if (it == components.end() || nullptr == it->second)
     {
         LM(GEN, LE, "Can not find component, compId=%zu", msg.getCompId());
         return;
     }
-    comp->getReactor().send(msg);
+    it->second->getReactor().send(msg);
 }
 
 void ReactorManager::addComponent(std::unique_ptr<ComponentInterface> comp)
-- 
2.43.0


From 8f32c5def20eea17a51a762558ecff4eebdc33fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:55 +0000
Subject: [PATCH 52/70] fix: an accepted connection leaks when the link is in
 use

---
 src/app/common/reactor/Acceptor.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/app/common/reactor/Acceptor.cpp b/src/app/common/reactor/Acceptor.cpp
index 78c897f..dcf3ec1 100644
--- a/src/app/common/reactor/Acceptor.cpp
+++ b/src/app/common/reactor/Acceptor.cpp
@@ -129,7 +129,15 @@ void Acceptor::accept(LinkInterface& link)
         throw std::runtime_error("fcntl");
     }
 
-    link.setFileDescriptor(fd);
+    try
+    {
+        link.setFileDescriptor(fd);
+    }
+    catch (...)
+    {
+        ::close(fd);
+        throw;
+    }
 
     if (-1 == epoll.add(link, EPOLLIN | EPOLLET))
     {
-- 
2.43.0


From 6ec6069c38fce99fa72d17792ebc94eecae8d994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:55 +0000
Subject: [PATCH 53/70] fix: transaction numbers and offsets of a Modbus peer
 index the test data unchecked

---
 .../modbus/ModbusTestController.cpp           | 20 +++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/app/controller/modbus/ModbusTestController.cpp b/src/app/controller/modbus/ModbusTestController.cpp
index 6997c8b..54efcfc 100644
--- a/src/app/controller/modbus/ModbusTestController.cpp
+++ b/src/app/controller/modbus/ModbusTestController.cpp
@@ -15,6 +15,7 @@
 
 #include "Logger.hpp"
 
+#include <algorithm>
 #include <chrono>
 #include <thread>
 #include <cstring>
@@ -241,6 +242,12 @@ void ModbusTestController::sendModbusClientAduReq()
 
 Result ModbusTestController::process(MsgModbusClientAduRsp const& rsp)
 {
+    if (rsp.transactId >= testCases.size())
+    {
+        LM(CTRL, LE, "TEST CASE: %u, INVALID transactId", rsp.transactId);
+        return Result::error;
+    }
+
     testCaseCounter += 1;
 
     auto const& it = testCases[rsp.transactId];
@@ -341,8 +348,21 @@ void ModbusTestController::process(MsgModbusConfigRsp const&)
 
 Result ModbusTestController::process(MsgModbusAduReq const& req)
 {
+    if (req.transactId >= testCases.size())
+    {
+        LM(CTRL, LE, "TEST CASE: %u, INVALID transactId", req.transactId);
+        return Result::error;
+    }
+
     auto& it = testCases[req.transactId];
 
+    std::size_t const offset = req.startItem * 2u;
+    if (offset + std::max<std::size_t>(req.numItems * 2u, req.numBytes) > it.rsp.data.size())
+    {
+        LM(CTRL, LE, "TEST CASE: %u, INVALID number of bytes", req.transactId);
+        return Result::error;
+    }
+
     switch (req.func)
     {
     case ModbusFunction::readHoldingRegisters:
-- 
2.43.0


From c2989e8ccac6202dc5df80942f8c208de377779c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:25 +0000
Subject: [PATCH 54/70] fix: unknown service ids grow the service table

---
 src/app/ua/service/UaService.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/app/ua/service/UaService.cpp b/src/app/ua/service/UaService.cpp
index 4e9b3d4..36d900a 100644
--- a/src/app/ua/service/UaService.cpp
+++ b/src/app/ua/service/UaService.cpp
@@ -48,14 +48,14 @@ void UaService::receive(MsgUaEncodedMessageReceiveInd const& msgReq)
 
     UaServiceId serviceId = std::get<UInt32>(eNodeId.nodeId.value);
 
-    auto& serv = services[static_cast<DataTypeId>(serviceId)];
-    if (not serv)
+    auto const serv = services.find(static_cast<DataTypeId>(serviceId));
+    if (services.end() == serv)
     {
         LM(UASRV, LE, "Unexpected service id(%u)", serviceId);
         return;
     }
 
-    serv->receive(msgReq.hdr, rx);
+    serv->second->receive(msgReq.hdr, rx);
 }
 
 } // namespace app::ua::service
-- 
2.43.0


From da229e7067b2cb4e4ea62f873667b12ebc84c66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:31 +0000
Subject: [PATCH 55/70] fix: service ids that do not fit a data type id run
 another service

---
 src/app/ua/service/UaService.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/app/ua/service/UaService.cpp b/src/app/ua/service/UaService.cpp
index 36d900a..06e4ee8 100644
--- a/src/app/ua/service/UaService.cpp
+++ b/src/app/ua/service/UaService.cpp
@@ -48,8 +48,9 @@ void UaService::receive(MsgUaEncodedMessageReceiveInd const& msgReq)
 
     UaServiceId serviceId = std::get<UInt32>(eNodeId.nodeId.value);
 
-    auto const serv = services.find(static_cast<DataTypeId>(serviceId));
-    if (services.end() == serv)
+    auto const dataTypeId = static_cast<DataTypeId>(serviceId);
+    auto const serv = services.find(dataTypeId);
+    if (services.end() == serv || serviceId != static_cast<UaServiceId>(dataTypeId))
     {
         LM(UASRV, LE, "Unexpected service id(%u)", serviceId);
         return;
-- 
2.43.0


From c62cdbb343b8ffaeb6ab9c2bdfd16c18c2f3c249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:05 +0000
Subject: [PATCH 56/70] fix: a failed link leaves an OPC UA connection waiting

---
 .../ua/protocols/connection/ClientConnectionConnected.cpp  | 7 +++++++
 .../ua/protocols/connection/ClientConnectionConnected.hpp  | 2 ++
 .../ua/protocols/connection/ClientConnectionReceiveAck.cpp | 7 +++++++
 .../ua/protocols/connection/ClientConnectionReceiveAck.hpp | 2 ++
 .../ua/protocols/connection/ServerConnectionConnected.cpp  | 7 +++++++
 .../ua/protocols/connection/ServerConnectionConnected.hpp  | 2 ++
 .../protocols/connection/ServerConnectionReceiveHello.cpp  | 7 +++++++
 .../protocols/connection/ServerConnectionReceiveHello.hpp  | 2 ++
 8 files changed, 36 insertions(+)

diff --git a/src/app/common/ua/protocols/connection/ClientConnectionConnected.cpp b/src/app/common/ua/protocols/connection/ClientConnectionConnected.cpp
index 0353470..a5b640a 100644
--- a/src/app/common/ua/protocols/connection/ClientConnectionConnected.cpp
+++ b/src/app/common/ua/protocols/connection/ClientConnectionConnected.cpp
@@ -40,6 +40,13 @@ void ClientConnectionConnected::onClose(ClientConnection& fsm)
     fsm.transit<ClientConnectionInit>();
 }
 
+void ClientConnectionConnected::onError(ClientConnection& fsm)
+{
+    LM(UA, LW, "onError");
+    fsm.notifyError();
+    fsm.transit<ClientConnectionInit>();
+}
+
 void ClientConnectionConnected::onTimer(ClientConnection& fsm)
 {
     fsm.closeLink();
diff --git a/src/app/common/ua/protocols/connection/ClientConnectionConnected.hpp b/src/app/common/ua/protocols/connection/ClientConnectionConnected.hpp
index 7429905..5a98495 100644
--- a/src/app/common/ua/protocols/connection/ClientConnectionConnected.hpp
+++ b/src/app/common/ua/protocols/connection/ClientConnectionConnected.hpp
@@ -18,6 +18,8 @@ public:
 
     void onClose(ClientConnection&) final;
 
+    void onError(ClientConnection&) final;
+
     void onTimer(ClientConnection&) final;
 
     void onExit(ClientConnection&) final;
diff --git a/src/app/common/ua/protocols/connection/ClientConnectionReceiveAck.cpp b/src/app/common/ua/protocols/connection/ClientConnectionReceiveAck.cpp
index 8bc6483..998fc44 100644
--- a/src/app/common/ua/protocols/connection/ClientConnectionReceiveAck.cpp
+++ b/src/app/common/ua/protocols/connection/ClientConnectionReceiveAck.cpp
@@ -33,6 +33,13 @@ void ClientConnectionReceiveAck::onDataReceived(ClientConnection& fsm)
     }
 }
 
+void ClientConnectionReceiveAck::onError(ClientConnection& fsm)
+{
+    LM(UA, LW, "onError");
+    fsm.notifyError();
+    fsm.transit<ClientConnectionInit>();
+}
+
 void ClientConnectionReceiveAck::onTimer(ClientConnection& fsm)
 {
     fsm.closeLink();
diff --git a/src/app/common/ua/protocols/connection/ClientConnectionReceiveAck.hpp b/src/app/common/ua/protocols/connection/ClientConnectionReceiveAck.hpp
index 3e11196..5dcb312 100644
--- a/src/app/common/ua/protocols/connection/ClientConnectionReceiveAck.hpp
+++ b/src/app/common/ua/protocols/connection/ClientConnectionReceiveAck.hpp
@@ -16,6 +16,8 @@ public:
 
     void onDataReceived(ClientConnection&) final;
 
+    void onError(ClientConnection&) final;
+
     void onTimer(ClientConnection&) final;
 
     void onExit(ClientConnection&) final;
diff --git a/src/app/common/ua/protocols/connection/ServerConnectionConnected.cpp b/src/app/common/ua/protocols/connection/ServerConnectionConnected.cpp
index a48e05f..2a1314d 100644
--- a/src/app/common/ua/protocols/connection/ServerConnectionConnected.cpp
+++ b/src/app/common/ua/protocols/connection/ServerConnectionConnected.cpp
@@ -40,6 +40,13 @@ void ServerConnectionConnected::onClose(ServerConnection& fsm)
     fsm.transit<ServerConnectionInit>();
 }
 
+void ServerConnectionConnected::onError(ServerConnection& fsm)
+{
+    LM(UA, LW, "onError");
+    fsm.notifyError();
+    fsm.transit<ServerConnectionInit>();
+}
+
 void ServerConnectionConnected::onTimer(ServerConnection& fsm)
 {
     fsm.closeLink();
diff --git a/src/app/common/ua/protocols/connection/ServerConnectionConnected.hpp b/src/app/common/ua/protocols/connection/ServerConnectionConnected.hpp
index 4e8cdec..16af096 100644
--- a/src/app/common/ua/protocols/connection/ServerConnectionConnected.hpp
+++ b/src/app/common/ua/protocols/connection/ServerConnectionConnected.hpp
@@ -18,6 +18,8 @@ public:
 
     void onClose(ServerConnection&) final;
 
+    void onError(ServerConnection&) final;
+
     void onTimer(ServerConnection&) final;
 
     void onExit(ServerConnection&) final;
diff --git a/src/app/common/ua/protocols/connection/ServerConnectionReceiveHello.cpp b/src/app/common/ua/protocols/connection/ServerConnectionReceiveHello.cpp
index d000581..33cb703 100644
--- a/src/app/common/ua/protocols/connection/ServerConnectionReceiveHello.cpp
+++ b/src/app/common/ua/protocols/connection/ServerConnectionReceiveHello.cpp
@@ -52,6 +52,13 @@ void ServerConnectionReceiveHello::onDataReceived(ServerConnection& fsm)
     }
 }
 
+void ServerConnectionReceiveHello::onError(ServerConnection& fsm)
+{
+    LM(UA, LW, "onError");
+    fsm.notifyError();
+    fsm.transit<ServerConnectionInit>();
+}
+
 void ServerConnectionReceiveHello::onTimer(ServerConnection& fsm)
 {
     LM(UA, LW, "onTimer");
diff --git a/src/app/common/ua/protocols/connection/ServerConnectionReceiveHello.hpp b/src/app/common/ua/protocols/connection/ServerConnectionReceiveHello.hpp
index 827c39b..e45c686 100644
--- a/src/app/common/ua/protocols/connection/ServerConnectionReceiveHello.hpp
+++ b/src/app/common/ua/protocols/connection/ServerConnectionReceiveHello.hpp
@@ -16,6 +16,8 @@ public:
 
     void onDataReceived(ServerConnection&) final;
 
+    void onError(ServerConnection&) final;
+
     void onTimer(ServerConnection&) final;
 
     void onExit(ServerConnection&) final;
-- 
2.43.0


From fd83c47c84d42b1f1c67288bb720dae0a2351516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:09 +0000
Subject: [PATCH 57/70] fix: an OPC UA connection whose connect fails waits
 without a timer

---
 .../ua/protocols/connection/ClientConnectionConnecting.cpp      | 2 +-
 .../ua/protocols/connection/ServerConnectionConnecting.cpp      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/app/common/ua/protocols/connection/ClientConnectionConnecting.cpp b/src/app/common/ua/protocols/connection/ClientConnectionConnecting.cpp
index c4a38e6..6a232af 100644
--- a/src/app/common/ua/protocols/connection/ClientConnectionConnecting.cpp
+++ b/src/app/common/ua/protocols/connection/ClientConnectionConnecting.cpp
@@ -8,8 +8,8 @@ namespace app::ua
 
 void ClientConnectionConnecting::onEnter(ClientConnection& fsm)
 {
-    fsm.connectLink();
     fsm.startTimer(ClientConnection::connectTimeout);
+    fsm.connectLink();
 }
 
 void ClientConnectionConnecting::onConnected(ClientConnection& fsm)
diff --git a/src/app/common/ua/protocols/connection/ServerConnectionConnecting.cpp b/src/app/common/ua/protocols/connection/ServerConnectionConnecting.cpp
index 7390b3c..c623092 100644
--- a/src/app/common/ua/protocols/connection/ServerConnectionConnecting.cpp
+++ b/src/app/common/ua/protocols/connection/ServerConnectionConnecting.cpp
@@ -8,8 +8,8 @@ namespace app::ua
 
 void ServerConnectionConnecting::onEnter(ServerConnection& fsm)
 {
-    fsm.connectLink();
     fsm.startTimer(ServerConnection::connectTimeout);
+    fsm.connectLink();
 }
 
 void ServerConnectionConnecting::onConnected(ServerConnection& fsm)
-- 
2.43.0


From 92e65c945e81dca2db61c8c434633197f50e6cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:14 +0000
Subject: [PATCH 58/70] fix: a client channel whose connection ended keeps
 waiting for the open response

---
 .../protocols/secure/OpcUaClientSecureChannelReceiveOpenRsp.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/app/common/ua/protocols/secure/OpcUaClientSecureChannelReceiveOpenRsp.cpp b/src/app/common/ua/protocols/secure/OpcUaClientSecureChannelReceiveOpenRsp.cpp
index 3a2fdf4..dd198e8 100644
--- a/src/app/common/ua/protocols/secure/OpcUaClientSecureChannelReceiveOpenRsp.cpp
+++ b/src/app/common/ua/protocols/secure/OpcUaClientSecureChannelReceiveOpenRsp.cpp
@@ -29,11 +29,13 @@ void OpcUaClientSecureChannelReceiveOpenRsp::onDataReceived(OpcUaClientSecureCha
 void OpcUaClientSecureChannelReceiveOpenRsp::onClosed(OpcUaClientSecureChannel& fsm)
 {
     fsm.notifyClosed();
+    fsm.transit<OpcUaClientSecureChannelInit>();
 }
 
 void OpcUaClientSecureChannelReceiveOpenRsp::onError(OpcUaClientSecureChannel& fsm)
 {
     fsm.notifyError();
+    fsm.transit<OpcUaClientSecureChannelInit>();
 }
 
 } // namespace app::ua
-- 
2.43.0


From 27b6551050a26dc791328beb8a09e80cc598ef2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:20 +0000
Subject: [PATCH 59/70] fix: a client channel that refuses the open response
 leaves its connection open

---
 .../common/ua/protocols/secure/OpcUaClientSecureChannel.cpp  | 5 +++++
 .../common/ua/protocols/secure/OpcUaClientSecureChannel.hpp  | 1 +
 .../secure/OpcUaClientSecureChannelReceiveOpenRsp.cpp        | 1 +
 3 files changed, 7 insertions(+)

diff --git a/src/app/common/ua/protocols/secure/OpcUaClientSecureChannel.cpp b/src/app/common/ua/protocols/secure/OpcUaClientSecureChannel.cpp
index 30f7f99..a817488 100644
--- a/src/app/common/ua/protocols/secure/OpcUaClientSecureChannel.cpp
+++ b/src/app/common/ua/protocols/secure/OpcUaClientSecureChannel.cpp
@@ -60,6 +60,11 @@ void OpcUaClientSecureChannel::connectLink(reactor::LinkAddr& addr)
     connection.connect(addr);
 }
 
+void OpcUaClientSecureChannel::closeConnection()
+{
+    connection.close();
+}
+
 OpcUaSecureChannel::Result OpcUaClientSecureChannel::sendOpenSecureChannelReq()
 {
     OpcUaSduBuffer tx;
diff --git a/src/app/common/ua/protocols/secure/OpcUaClientSecureChannel.hpp b/src/app/common/ua/protocols/secure/OpcUaClientSecureChannel.hpp
index 822ed7e..99fe44c 100644
--- a/src/app/common/ua/protocols/secure/OpcUaClientSecureChannel.hpp
+++ b/src/app/common/ua/protocols/secure/OpcUaClientSecureChannel.hpp
@@ -44,6 +44,7 @@ private:
     void onConnectionClosedEvent() final;
 
     void connectLink(reactor::LinkAddr&);
+    void closeConnection();
     Result sendOpenSecureChannelReq();
     Result receiveOpenSecureChannelRsp();
 
diff --git a/src/app/common/ua/protocols/secure/OpcUaClientSecureChannelReceiveOpenRsp.cpp b/src/app/common/ua/protocols/secure/OpcUaClientSecureChannelReceiveOpenRsp.cpp
index dd198e8..4ede73a 100644
--- a/src/app/common/ua/protocols/secure/OpcUaClientSecureChannelReceiveOpenRsp.cpp
+++ b/src/app/common/ua/protocols/secure/OpcUaClientSecureChannelReceiveOpenRsp.cpp
@@ -20,6 +20,7 @@ void OpcUaClientSecureChannelReceiveOpenRsp::onDataReceived(OpcUaClientSecureCha
     case OpcUaSecureChannel::Result::error:
     {
         fsm.notifyError();
+        fsm.closeConnection();
         fsm.transit<OpcUaClientSecureChannelInit>();
     }
     break;
-- 
2.43.0


From a30b097fa561ac7b4caa6546982bad2e98f1fcaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:09 +0000
Subject: [PATCH 60/70] fix: an idle OPC UA connection keeps a link it could
 not accept

---
 src/app/common/ua/protocols/connection/ServerConnectionInit.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/app/common/ua/protocols/connection/ServerConnectionInit.cpp b/src/app/common/ua/protocols/connection/ServerConnectionInit.cpp
index e1b0626..ff16bb1 100644
--- a/src/app/common/ua/protocols/connection/ServerConnectionInit.cpp
+++ b/src/app/common/ua/protocols/connection/ServerConnectionInit.cpp
@@ -21,8 +21,8 @@ void ServerConnectionInit::onConnect(ServerConnection& fsm, reactor::LinkAddr co
 
 void ServerConnectionInit::onAccept(ServerConnection& fsm, reactor::LinkPtr& link)
 {
-    fsm.setLink(link);
     fsm.allocTimer();
+    fsm.setLink(link);
     fsm.transit<ServerConnectionReceiveHello>();
 }
 
-- 
2.43.0


From 2375a585e831857c20a26edc8fd237cb293beee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:04 +0000
Subject: [PATCH 61/70] fix: an OPC UA connection closed on being connected
 uses a released timer

---
 .../ua/protocols/connection/ClientConnectionConnected.cpp       | 2 +-
 .../ua/protocols/connection/ServerConnectionConnected.cpp       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/app/common/ua/protocols/connection/ClientConnectionConnected.cpp b/src/app/common/ua/protocols/connection/ClientConnectionConnected.cpp
index a5b640a..5251028 100644
--- a/src/app/common/ua/protocols/connection/ClientConnectionConnected.cpp
+++ b/src/app/common/ua/protocols/connection/ClientConnectionConnected.cpp
@@ -7,9 +7,9 @@ namespace app::ua
 
 void ClientConnectionConnected::onEnter(ClientConnection& fsm)
 {
-    fsm.notifyConnected();
     fsm.receivePreaction();
     fsm.startTimer(ClientConnection::establishTimeout);
+    fsm.notifyConnected();
 }
 
 void ClientConnectionConnected::onDataReceived(ClientConnection& fsm)
diff --git a/src/app/common/ua/protocols/connection/ServerConnectionConnected.cpp b/src/app/common/ua/protocols/connection/ServerConnectionConnected.cpp
index 2a1314d..49e37f0 100644
--- a/src/app/common/ua/protocols/connection/ServerConnectionConnected.cpp
+++ b/src/app/common/ua/protocols/connection/ServerConnectionConnected.cpp
@@ -7,9 +7,9 @@ namespace app::ua
 
 void ServerConnectionConnected::onEnter(ServerConnection& fsm)
 {
-    fsm.notifyConnected();
     fsm.receivePreaction();
     fsm.startTimer(ServerConnection::establishTimeout);
+    fsm.notifyConnected();
 }
 
 void ServerConnectionConnected::onDataReceived(ServerConnection& fsm)
-- 
2.43.0


From 512bcd7de224b51b2a6b24f3bbf5b1afcb990f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:11 +0000
Subject: [PATCH 62/70] fix: a client channel waits for the answer to an open
 request it could not send

---
 .../common/ua/protocols/secure/OpcUaClientSecureChannel.cpp  | 5 ++++-
 .../protocols/secure/OpcUaClientSecureChannelConnecting.cpp  | 2 ++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/app/common/ua/protocols/secure/OpcUaClientSecureChannel.cpp b/src/app/common/ua/protocols/secure/OpcUaClientSecureChannel.cpp
index a817488..3a024b8 100644
--- a/src/app/common/ua/protocols/secure/OpcUaClientSecureChannel.cpp
+++ b/src/app/common/ua/protocols/secure/OpcUaClientSecureChannel.cpp
@@ -91,7 +91,10 @@ OpcUaSecureChannel::Result OpcUaClientSecureChannel::sendOpenSecureChannelReq()
     setPayloadSizeToHdr(tx.begin(), tx.size());
     LM(UA, LD, "OpcUaClientSecureChannel-0, send UaOpenSecureChannelReq, pkt size(%u)", tx.size());
 
-    connection.send(tx);
+    if (OpcUaConnection::Result::done != connection.send(tx))
+    {
+        return OpcUaSecureChannel::Result::error;
+    }
     return OpcUaSecureChannel::Result::done;
 }
 
diff --git a/src/app/common/ua/protocols/secure/OpcUaClientSecureChannelConnecting.cpp b/src/app/common/ua/protocols/secure/OpcUaClientSecureChannelConnecting.cpp
index 51e1e8b..0758001 100644
--- a/src/app/common/ua/protocols/secure/OpcUaClientSecureChannelConnecting.cpp
+++ b/src/app/common/ua/protocols/secure/OpcUaClientSecureChannelConnecting.cpp
@@ -24,6 +24,8 @@ void OpcUaClientSecureChannelConnecting::onConnected(OpcUaClientSecureChannel& f
     case OpcUaSecureChannel::Result::error:
     {
         fsm.notifyError();
+        fsm.closeConnection();
+        fsm.transit<OpcUaClientSecureChannelInit>();
     }
     break;
     }
-- 
2.43.0


From 55ba92a193e4dec16060a41455058a61fdd67286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:52 +0000
Subject: [PATCH 63/70] fix: an undecodable hello or acknowledge does not end a
 connection of the protocol library

---
 .../ua/protocols/connection/ClientConnection.cpp       | 10 +++++++++-
 .../ua/protocols/connection/ServerConnection.cpp       | 10 +++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/app/common/ua/protocols/connection/ClientConnection.cpp b/src/app/common/ua/protocols/connection/ClientConnection.cpp
index f5f274a..95bba02 100644
--- a/src/app/common/ua/protocols/connection/ClientConnection.cpp
+++ b/src/app/common/ua/protocols/connection/ClientConnection.cpp
@@ -78,7 +78,15 @@ OpcUaConnection::Result ClientConnection::receiveAck()
 
     MessageHeader hdr;
     AcknowledgeMessage hello;
-    codec >> hdr >> hello;
+    try
+    {
+        codec >> hdr >> hello;
+    }
+    catch (std::exception const& e)
+    {
+        LM(UA, LW, "ClientConnection-0, malformed packet: %s", e.what());
+        return OpcUaConnection::Result::error;
+    }
 
     LM(UA, LD, "ClientConnection-0, received AcknowledgeMessage");
 
diff --git a/src/app/common/ua/protocols/connection/ServerConnection.cpp b/src/app/common/ua/protocols/connection/ServerConnection.cpp
index 3c91233..5ccff55 100644
--- a/src/app/common/ua/protocols/connection/ServerConnection.cpp
+++ b/src/app/common/ua/protocols/connection/ServerConnection.cpp
@@ -103,7 +103,15 @@ OpcUaConnection::Result ServerConnection::receiveHello()
 
     MessageHeader hdr;
     HelloMessage hello;
-    codec >> hdr >> hello;
+    try
+    {
+        codec >> hdr >> hello;
+    }
+    catch (std::exception const& e)
+    {
+        LM(UA, LW, "ServerConnection-0, malformed packet: %s", e.what());
+        return Result::error;
+    }
 
     return OpcUaConnection::Result::done;
 }
-- 
2.43.0


From 39fb30f31eb5a1303da7c8d259aa7b28e572419f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:28 +0000
Subject: [PATCH 64/70] fix: a malformed packet leaves a secure channel of the
 protocol library with a half-read buffer

---
 .../OpcUaClientSecureChannelReceiveOpenRsp.cpp  |  2 +-
 .../ua/protocols/secure/OpcUaSecureChannel.hpp  | 17 +++++++++++++++++
 .../OpcUaServerSecureChannelEstablished.cpp     |  6 +++---
 .../OpcUaServerSecureChannelReceiveOpenReq.cpp  |  2 +-
 4 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/app/common/ua/protocols/secure/OpcUaClientSecureChannelReceiveOpenRsp.cpp b/src/app/common/ua/protocols/secure/OpcUaClientSecureChannelReceiveOpenRsp.cpp
index 4ede73a..0605446 100644
--- a/src/app/common/ua/protocols/secure/OpcUaClientSecureChannelReceiveOpenRsp.cpp
+++ b/src/app/common/ua/protocols/secure/OpcUaClientSecureChannelReceiveOpenRsp.cpp
@@ -8,7 +8,7 @@ namespace app::ua
 
 void OpcUaClientSecureChannelReceiveOpenRsp::onDataReceived(OpcUaClientSecureChannel& fsm)
 {
-    switch (fsm.receiveOpenSecureChannelRsp())
+    switch (fsm.tryReceive([&fsm](){ return fsm.receiveOpenSecureChannelRsp(); }))
     {
     case OpcUaSecureChannel::Result::noerror:
     break;
diff --git a/src/app/common/ua/protocols/secure/OpcUaSecureChannel.hpp b/src/app/common/ua/protocols/secure/OpcUaSecureChannel.hpp
index 53734d2..fb5f33c 100644
--- a/src/app/common/ua/protocols/secure/OpcUaSecureChannel.hpp
+++ b/src/app/common/ua/protocols/secure/OpcUaSecureChannel.hpp
@@ -1,8 +1,10 @@
 #pragma once
 
+#include <exception>
 #include <functional>
 #include "OpcUaConnection.hpp"
 #include "EntityId.hpp"
+#include "Logger.hpp"
 
 namespace app::ua
 {
@@ -49,6 +51,21 @@ public:
 
 protected:
 
+    // a packet that can not be decoded is an error of the peer
+    template <typename ACTION>
+    Result tryReceive(ACTION action)
+    {
+        try
+        {
+            return action();
+        }
+        catch (std::exception const& e)
+        {
+            LM(UA, LE, "Channel-%u, malformed packet: %s", uid, e.what());
+            return Result::error;
+        }
+    }
+
     void notifyEstablished();
 
     void notifyDataReceived();
diff --git a/src/app/common/ua/protocols/secure/OpcUaServerSecureChannelEstablished.cpp b/src/app/common/ua/protocols/secure/OpcUaServerSecureChannelEstablished.cpp
index 2c10e61..a56881a 100644
--- a/src/app/common/ua/protocols/secure/OpcUaServerSecureChannelEstablished.cpp
+++ b/src/app/common/ua/protocols/secure/OpcUaServerSecureChannelEstablished.cpp
@@ -7,7 +7,7 @@ namespace app::ua
 
 void OpcUaServerSecureChannelEstablished::onOpenSecureChannelReq(OpcUaServerSecureChannel& fsm)
 {
-    switch (fsm.receiveOpenSecureChannelReq())
+    switch (fsm.tryReceive([&fsm](){ return fsm.receiveOpenSecureChannelReq(); }))
     {
     case OpcUaSecureChannel::Result::noerror:
     break;
@@ -42,7 +42,7 @@ void OpcUaServerSecureChannelEstablished::onOpenSecureChannelReq(OpcUaServerSecu
 
 void OpcUaServerSecureChannelEstablished::onCloseSecureChannelReq(OpcUaServerSecureChannel& fsm)
 {
-    switch (fsm.receiveCloseSecureChannelReq())
+    switch (fsm.tryReceive([&fsm](){ return fsm.receiveCloseSecureChannelReq(); }))
     {
     case OpcUaSecureChannel::Result::noerror:
     break;
@@ -65,7 +65,7 @@ void OpcUaServerSecureChannelEstablished::onCloseSecureChannelReq(OpcUaServerSec
 
 void OpcUaServerSecureChannelEstablished::onSecureChannelReq(OpcUaServerSecureChannel& fsm)
 {
-    switch (fsm.receiveSecureChannelReq())
+    switch (fsm.tryReceive([&fsm](){ return fsm.receiveSecureChannelReq(); }))
     {
     case OpcUaSecureChannel::Result::noerror:
     break;
diff --git a/src/app/common/ua/protocols/secure/OpcUaServerSecureChannelReceiveOpenReq.cpp b/src/app/common/ua/protocols/secure/OpcUaServerSecureChannelReceiveOpenReq.cpp
index ec44244..d9c842c 100644
--- a/src/app/common/ua/protocols/secure/OpcUaServerSecureChannelReceiveOpenReq.cpp
+++ b/src/app/common/ua/protocols/secure/OpcUaServerSecureChannelReceiveOpenReq.cpp
@@ -8,7 +8,7 @@ namespace app::ua
 
 void OpcUaServerSecureChannelReceiveOpenReq::onOpenSecureChannelReq(OpcUaServerSecureChannel& fsm)
 {
-    switch (fsm.receiveOpenSecureChannelReq())
+    switch (fsm.tryReceive([&fsm](){ return fsm.receiveOpenSecureChannelReq(); }))
     {
     case OpcUaSecureChannel::Result::noerror:
     break;
-- 
2.43.0


From d7c4a88a57907188d02fdbdb14c78172f6580218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:10 +0000
Subject: [PATCH 65/70] fix: a coil is written with 0x00FF instead of the
 protocol's 0xFF00

---
 src/app/modbus/ModbusCodec.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/app/modbus/ModbusCodec.cpp b/src/app/modbus/ModbusCodec.cpp
index 515b935..2fa58f0 100644
--- a/src/app/modbus/ModbusCodec.cpp
+++ b/src/app/modbus/ModbusCodec.cpp
@@ -107,10 +107,10 @@ bool ModbusCodec::encode(AduRequest const& adu)
         }
         if (adu.func == ModbusFunction::forceSingleCoil)
         {
-            if ((adu.data[1] != 0x0) || (adu.data[0] != 0x0 && adu.data[0] != 0xFF))
+            if ((adu.data[0] != 0x0) || (adu.data[1] != 0x0 && adu.data[1] != 0xFF))
             {
-                unsigned hh = adu.data[0];
-                unsigned ll = adu.data[1];
+                unsigned hh = adu.data[1];
+                unsigned ll = adu.data[0];
                 LM(MODBUS, LW, "ADU encode, expected value is 0xFF00 | 0x0000, but given %u", (hh << 8) | ll);
                 return false;
             }
@@ -307,10 +307,10 @@ bool ModbusCodec::encode(AduRespond const& adu)
         }
         if (adu.func == ModbusFunction::forceSingleCoil)
         {
-            if ((adu.data[1] != 0x0) || (adu.data[0] != 0x0 && adu.data[0] != 0xFF))
+            if ((adu.data[0] != 0x0) || (adu.data[1] != 0x0 && adu.data[1] != 0xFF))
             {
-                unsigned hh = adu.data[0];
-                unsigned ll = adu.data[1];
+                unsigned hh = adu.data[1];
+                unsigned ll = adu.data[0];
                 LM(MODBUS, LW, "ADU encode, expected value is 0xFF00 | 0x0000, but given %u", (hh << 8) | ll);
                 return false;
             }
-- 
2.43.0


From 8026eee1b1450b88f94037fab7a6e0b0e22bc069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:43 +0000
Subject: [PATCH 66/70] fix: restart the sequence numbers of a reused library
 secure channel

---
 src/app/common/ua/protocols/secure/OpcUaServerSecureChannel.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/app/common/ua/protocols/secure/OpcUaServerSecureChannel.cpp b/src/app/common/ua/protocols/secure/OpcUaServerSecureChannel.cpp
index acee7d6..f45355d 100644
--- a/src/app/common/ua/protocols/secure/OpcUaServerSecureChannel.cpp
+++ b/src/app/common/ua/protocols/secure/OpcUaServerSecureChannel.cpp
@@ -71,6 +71,7 @@ OpcUaSduBuffer& OpcUaServerSecureChannel::getRxBuffer()
 void OpcUaServerSecureChannel::acceptConnection(reactor::LinkPtr& link)
 {
     secureChannelId = ::rand() % 0x7FFFFFFF;
+    sequenceNumberTx = 1;
 
     connection.accept(link);
 }
-- 
2.43.0


From cd1a09920468b4808ae93fb6af995547bbb8507f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:28 +0000
Subject: [PATCH 67/70] fix: report a connect that succeeds together with
 incoming data as success

---
 src/app/common/reactor/Link.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/app/common/reactor/Link.cpp b/src/app/common/reactor/Link.cpp
index d0b006c..48add7c 100644
--- a/src/app/common/reactor/Link.cpp
+++ b/src/app/common/reactor/Link.cpp
@@ -157,6 +157,7 @@ void Link::onFileDescriptorEvent(int events)
     }
     break;
     case EPOLLOUT:
+    case EPOLLOUT | EPOLLIN: // data is reported again after mod
     {
         if (-1 == epoll.mod(*this, EPOLLIN | EPOLLET))
         {
-- 
2.43.0


From 593c0871eaba6d85ecb11d386124952eb03d2b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:27 +0000
Subject: [PATCH 68/70] fix: release Modbus when the controller is stopped
 while it configures

---
 src/app/controller/modbus/ModbusTestConfigure.cpp | 6 ++++++
 src/app/controller/modbus/ModbusTestConfigure.hpp | 2 ++
 2 files changed, 8 insertions(+)

diff --git a/src/app/controller/modbus/ModbusTestConfigure.cpp b/src/app/controller/modbus/ModbusTestConfigure.cpp
index 4e2b6cb..ef382bd 100644
--- a/src/app/controller/modbus/ModbusTestConfigure.cpp
+++ b/src/app/controller/modbus/ModbusTestConfigure.cpp
@@ -1,6 +1,7 @@
 #include "ModbusTestConfigure.hpp"
 #include "ModbusTestFsm.hpp"
 #include "ModbusTestController.hpp"
+#include "ModbusTestInit.hpp"
 #include "ModbusTestRun.hpp"
 
 namespace app::controller
@@ -17,4 +18,9 @@ void ModbusTestConfigure::onModbusConfigRspReceive(ModbusTestFsm& fsm, MsgModbus
     fsm.transit<ModbusTestRun>();
 }
 
+void ModbusTestConfigure::onStop(ModbusTestFsm& fsm)
+{
+    fsm.transit<ModbusTestInit>();
+}
+
 } // namespace app::controller
diff --git a/src/app/controller/modbus/ModbusTestConfigure.hpp b/src/app/controller/modbus/ModbusTestConfigure.hpp
index 2a90bb8..2fc21af 100644
--- a/src/app/controller/modbus/ModbusTestConfigure.hpp
+++ b/src/app/controller/modbus/ModbusTestConfigure.hpp
@@ -16,6 +16,8 @@ public:
 
     void onModbusConfigRspReceive(ModbusTestFsm&, MsgModbusConfigRsp const&) final;
 
+    void onStop(ModbusTestFsm&) final;
+
 private:
     /* data */
 };
-- 
2.43.0


From dc4c0b4349e9f3e860f7395ddd034574b3cea1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:48:52 +0000
Subject: [PATCH 69/70] fix: a thread that was never created is joined when its
 reactor is destroyed

---
 src/app/common/reactor/Thread.cpp | 12 +++++++++++-
 src/app/common/reactor/Thread.hpp |  4 ++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/app/common/reactor/Thread.cpp b/src/app/common/reactor/Thread.cpp
index 14d05be..ac6a15c 100644
--- a/src/app/common/reactor/Thread.cpp
+++ b/src/app/common/reactor/Thread.cpp
@@ -39,7 +39,16 @@ Thread::~Thread()
         LM(GEN, LE, "pthread_attr_destroy");
     }
 
-    result = pthread_join(tid, nullptr);
+    join();
+}
+
+void Thread::join()
+{
+    if (not started.exchange(false))
+    {
+        return;
+    }
+    int result = pthread_join(tid, nullptr);
     if (result != 0)
     {
         LM(GEN, LE, "pthread_join");
@@ -60,6 +69,7 @@ void Thread::start()
     {
         throw std::runtime_error("pthread_create");
     }
+    started = true;
 
     if (0 == cpuMask)
     {
diff --git a/src/app/common/reactor/Thread.hpp b/src/app/common/reactor/Thread.hpp
index b35edf8..05e76e2 100644
--- a/src/app/common/reactor/Thread.hpp
+++ b/src/app/common/reactor/Thread.hpp
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <atomic>
 #include <cstdint>
 #include <pthread.h>
 #include <functional>
@@ -18,10 +19,13 @@ public:
 
     void start();
 
+    void join();
+
 private:
     uint64_t const cpuMask;
     ThreadHandler& handler;
     pthread_t tid;
+    std::atomic<bool> started{false};
     pthread_attr_t attr;
 };
 
-- 
2.43.0


From e4b91db05fe105bad0eabbc0edd70b1f93920432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:48:52 +0000
Subject: [PATCH 70/70] fix: objects are destroyed while the event-loop threads
 still use them

---
 src/app/common/reactor/Reactor.cpp        | 5 +++++
 src/app/common/reactor/ReactorManager.cpp | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/src/app/common/reactor/Reactor.cpp b/src/app/common/reactor/Reactor.cpp
index 370e804..a955ff4 100644
--- a/src/app/common/reactor/Reactor.cpp
+++ b/src/app/common/reactor/Reactor.cpp
@@ -39,6 +39,7 @@ Reactor::Reactor(Init const& init)
 
 Reactor::~Reactor()
 {
+    Reactor::stop();
 }
 
 void Reactor::registerHandler(MsgId id, MsgHandler handler)
@@ -136,6 +137,10 @@ void Reactor::start()
 void Reactor::stop()
 {
     stopped = true;
+    for (auto& thread : threads)
+    {
+        thread->join();
+    }
 }
 
 void Reactor::onFdEvent(uint64_t val)
diff --git a/src/app/common/reactor/ReactorManager.cpp b/src/app/common/reactor/ReactorManager.cpp
index 0e4492d..e16d032 100644
--- a/src/app/common/reactor/ReactorManager.cpp
+++ b/src/app/common/reactor/ReactorManager.cpp
@@ -18,6 +18,10 @@ ReactorManager::ReactorManager()
 
 ReactorManager::~ReactorManager()
 {
+    for (auto& reactor : reactors)
+    {
+        reactor->stop();
+    }
 }
 
 void ReactorManager::send(MsgInterface const& msg)
-- 
2.43.0

