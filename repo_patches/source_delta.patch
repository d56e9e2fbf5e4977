From aab814a5383d6031480017a23ccfce887c869593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:09 +0000
Subject: [PATCH 01/27] verif: build-tagged hook to replace the packet
 connection

---
 tru.go              |  2 +-
 tru_listen.go       | 10 ++++++++++
 tru_listen_verif.go | 17 +++++++++++++++++
 3 files changed, 28 insertions(+), 1 deletion(-)
 create mode 100644 tru_listen.go
 create mode 100644 tru_listen_verif.go

diff --git a/tru.go b/tru.go
index dc58bd4..aff5bbb 100644
--- a/tru.go
+++ b/tru.go
@@ -154,7 +154,7 @@ func New(port int, params ...interface{}) (tru *Tru, err error) {
 	tru.listenStop = make(chan interface{})
 	tru.channels = make(map[string]*Channel)
 	tru.connect.connects = make(map[string]*connectData)
-	tru.conn, err = net.ListenPacket("udp", ":"+strconv.Itoa(port))
+	tru.conn, err = listenPacket("udp", ":"+strconv.Itoa(port))
 	if err != nil {
 		return
 	}
diff --git a/tru_listen.go b/tru_listen.go
new file mode 100644
index 0000000..b6d39c8
--- /dev/null
+++ b/tru_listen.go
@@ -0,0 +1,10 @@
+//go:build !verif
+
+package tru
+
+import "net"
+
+// listenPacket opens the local packet connection used by the tru object
+func listenPacket(network, address string) (net.PacketConn, error) {
+	return net.ListenPacket(network, address)
+}
diff --git a/tru_listen_verif.go b/tru_listen_verif.go
new file mode 100644
index 0000000..038a22b
--- /dev/null
+++ b/tru_listen_verif.go
@@ -0,0 +1,17 @@
+//go:build verif
+
+package tru
+
+import "net"
+
+// ListenPacketHook replaces net.ListenPacket when it is set. It exists in
+// verification builds only (build tag verif): simulated networks use it.
+var ListenPacketHook func(network, address string) (net.PacketConn, error)
+
+// listenPacket opens the local packet connection used by the tru object
+func listenPacket(network, address string) (net.PacketConn, error) {
+	if ListenPacketHook != nil {
+		return ListenPacketHook(network, address)
+	}
+	return net.ListenPacket(network, address)
+}
-- 
2.43.0


From adf84018ede913ab648a6726fedabf2b965d35fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:19 +0000
Subject: [PATCH 02/27] fix: call the delivery callback exactly once

The timeout timer was copied, so stopping it had no effect and a delivered
packet was reported again as timed out; an acknowledgement racing with the
retransmission queue could dereference a nil packet; and the callback was
set after the packet had been queued.
---
 channel.go |  2 +-
 packet.go  | 27 +++++++++++++++++++++++----
 tru.go     |  6 ++----
 3 files changed, 26 insertions(+), 9 deletions(-)

diff --git a/channel.go b/channel.go
index 0679bd0..38ca2c9 100644
--- a/channel.go
+++ b/channel.go
@@ -261,12 +261,12 @@ func (ch *Channel) writeTo(data []byte, stat int, delivery []interface{}, ids ..
 	// Add data packet to send queue and Set packet retransmit time
 	if status == statusData {
 		ch.setRetransmitTime(pac)
-		ch.sendQueue.add(pac)
 		if stat == statusData {
 			pac.SetDeliveryTimeout(deliveryTimeout)
 			pac.SetDelivery(deliveryFunc)
 			ch.stat.setSend()
 		}
+		ch.sendQueue.add(pac)
 		ch.stat.setLastSend(time.Now())
 	}
 
diff --git a/packet.go b/packet.go
index 96e7c3a..a9c59dc 100644
--- a/packet.go
+++ b/packet.go
@@ -48,7 +48,8 @@ type Packet struct {
 	retransmitAttempts int                // Packet retransmit attempts
 	delivery           PacketDeliveryFunc // Packet delivery callback function
 	deliveryTimeout    time.Duration      // Packet delivery callback timeout
-	deliveryTimer      time.Timer         // Packet delivery timeout timer
+	deliveryTimer      *time.Timer        // Packet delivery timeout timer
+	deliveryOnce       sync.Once          // Packet delivery callback executes once
 	sync.RWMutex
 }
 
@@ -171,6 +172,8 @@ func (p *Packet) SetStatus(status int) *Packet {
 
 // Status get packet status
 func (p *Packet) Delivery() PacketDeliveryFunc {
+	p.RLock()
+	defer p.RUnlock()
 	return p.delivery
 }
 
@@ -181,15 +184,31 @@ func (p *Packet) SetDelivery(delivery PacketDeliveryFunc) *Packet {
 		return p
 	}
 	log.Debugvvv.Println("set delivery func, id", p.ID())
+	p.Lock()
+	defer p.Unlock()
 	p.delivery = delivery
-	p.deliveryTimer = *time.AfterFunc(p.deliveryTimeout, func() {
+	p.deliveryTimer = time.AfterFunc(p.deliveryTimeout, func() {
 		// log.Error.Println("delivery timeout, id", p.ID())
-		err := errors.New("delivery timeout")
-		p.delivery(p, err)
+		p.delivered(errors.New("delivery timeout"))
 	})
 	return p
 }
 
+// delivered stops delivery timeout timer and execute delivery callback. The
+// callback executes only once: when packet delivered or by timeout.
+func (p *Packet) delivered(err error) {
+	p.RLock()
+	delivery, timer := p.delivery, p.deliveryTimer
+	p.RUnlock()
+	if delivery == nil {
+		return
+	}
+	p.deliveryOnce.Do(func() {
+		timer.Stop()
+		go delivery(p, err)
+	})
+}
+
 // SetDeliveryTimeout set delivery function timeout
 func (p *Packet) SetDeliveryTimeout(timeout time.Duration) *Packet {
 	log.Debugvvv.Println("set delivery timeout, id", p.ID())
diff --git a/tru.go b/tru.go
index aff5bbb..3842701 100644
--- a/tru.go
+++ b/tru.go
@@ -374,11 +374,9 @@ func (tru *Tru) serve(n int, addr net.Addr, data []byte) {
 		}
 		ch.stat.setAckReceived()
 		log.Debugvv.Printf("got ack to packet id %d, trip time: %.3f ms", pac.ID(), float64(tt.Microseconds())/1000.0)
-		pac, ok := ch.sendQueue.delete(pac.ID())
 		// Execute packet delivery callback
-		if delivery := pac.Delivery(); ok && delivery != nil {
-			pac.deliveryTimer.Stop()
-			go delivery(pac, nil)
+		if pac, ok := ch.sendQueue.delete(pac.ID()); ok {
+			pac.delivered(nil)
 		}
 
 	case statusDisconnect:
-- 
2.43.0


From e1c9c0002c2d62d2b7b538361cb45f286e4cc341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:40 +0000
Subject: [PATCH 03/27] fix: keep packets within the IPv4 datagram limit

65535 - 8 bytes leave no room for the IPv4 header, so a full packet of a
large message could not be sent at all and the channel died retransmitting
it. The limit given to New was not checked either.
---
 packet.go | 2 +-
 tru.go    | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/packet.go b/packet.go
index a9c59dc..44892f2 100644
--- a/packet.go
+++ b/packet.go
@@ -31,7 +31,7 @@ const (
 )
 
 const (
-	maxUdpDataLength = 65535 - 8 // Max packet 65535 - 8 byte header
+	maxUdpDataLength = 65535 - 8 - 20 // Max packet 65535 - 8 byte UDP and 20 byte IPv4 headers
 	cryptAesLength   = 28        // AES crypt delete from max len packet data
 )
 
diff --git a/tru.go b/tru.go
index 3842701..8721240 100644
--- a/tru.go
+++ b/tru.go
@@ -134,7 +134,7 @@ func New(port int, params ...interface{}) (tru *Tru, err error) {
 
 		// Set max data length
 		case MaxDataLenType:
-			tru.maxDataLen = int(v)
+			tru.SetMaxDataLen(int(v))
 
 		// Wrong parameter
 		default:
@@ -216,7 +216,7 @@ func (tru *Tru) SetSendDelay(delay int) {
 func (tru *Tru) SetMaxDataLen(maxDataLen int) {
 	pac := tru.newPacket()
 	l := pac.MaxDataLen()
-	if maxDataLen < l {
+	if maxDataLen >= 0 && maxDataLen <= l {
 		tru.maxDataLen = maxDataLen
 	}
 }
-- 
2.43.0


From 8f50b71b8406ce6b1808bd5143796baed467429d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:46 +0000
Subject: [PATCH 04/27] fix: do not mix packets of messages written
 concurrently

Splitting a large message was not protected from other writers of the same
channel, so its fragments were interleaved with other packets and the peer
combined garbage.
---
 channel.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/channel.go b/channel.go
index 38ca2c9..a339ac2 100644
--- a/channel.go
+++ b/channel.go
@@ -26,6 +26,7 @@ type Channel struct {
 	recvQueue  receiveQueue  // Receive queue
 	tru        *Tru          // Pointer to tru
 	combine    combinePacket // Combine lage packet
+	writeLock  chan struct{} // Write lock: packets of one message go in a row
 	maxDataLen int           // Max data len in created packets
 	*crypt                   // Crypt module
 }
@@ -44,7 +45,8 @@ func (tru *Tru) newChannel(addr net.Addr, serverMode ...bool) (ch *Channel, err
 	log.Connect.Println(msg)
 	tru.statMsgs.add(msg)
 
-	ch = &Channel{addr: addr, tru: tru, maxDataLen: tru.maxDataLen}
+	ch = &Channel{addr: addr, tru: tru, maxDataLen: tru.maxDataLen,
+		writeLock: make(chan struct{}, 1)}
 	if len(serverMode) > 0 {
 		ch.serverMode = serverMode[0]
 	}
@@ -209,6 +211,11 @@ func (ch *Channel) ServerMode() bool {
 // PacketDeliveryFunc callback parameter is pac - pointer to send packet, and
 // err - timeout error or success if nil.
 func (ch *Channel) WriteTo(data []byte, delivery ...interface{}) (id int, err error) {
+	// Packets of one message should not be mixed with packets of messages which
+	// other goroutines write at the same time
+	ch.writeLock <- struct{}{}
+	defer func() { <-ch.writeLock }()
+
 	return ch.splitPacket(data, func(data []byte, split int) (int, error) {
 		return ch.writeTo(data, statusData|split, delivery)
 	})
-- 
2.43.0


From 6ce3d0e29f1cafdc87b91fb079232136d2305bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:40 +0000
Subject: [PATCH 05/27] fix: destroy a channel once and for good

Every further destroy notified the readers again (closing a channel inside
the callback recursed without end), timers re-armed themselves after they
had been stopped, so a closed channel went on retransmitting, and the map
entry was deleted even if it already belonged to a newer channel.
---
 channel.go    | 31 ++++++++++++++++++-------------
 packet.go     |  2 +-
 send_queue.go |  5 +++++
 speed.go      |  5 +++++
 statistic.go  | 11 +++++++++--
 5 files changed, 38 insertions(+), 16 deletions(-)

diff --git a/channel.go b/channel.go
index a339ac2..b3eee7c 100644
--- a/channel.go
+++ b/channel.go
@@ -139,26 +139,31 @@ func (ch *Channel) destroy(msg string) {
 		return
 	}
 
-	// Send error event to readers
-	if ch.reader != nil {
-		ch.reader(ch, nil, ErrChannelDestroyed)
-	}
-	if ch.tru.reader != nil {
-		ch.tru.reader(ch, nil, ErrChannelDestroyed)
+	// Destroy statistic and sendQueue. Only first call of destroy continues
+	if !ch.stat.destroy() {
+		return
 	}
-
-	// Destroy sendQueue and statistic
 	ch.sendQueue.destroy()
-	ch.stat.destroy()
+
+	// Delete channel from channels, new channel may already be connected from
+	// the same address
+	ch.tru.mu.Lock()
+	if ch.tru.channels[ch.addr.String()] == ch {
+		delete(ch.tru.channels, ch.addr.String())
+	}
+	ch.tru.mu.Unlock()
 
 	// Log messages
 	log.Connect.Println(msg)
 	ch.tru.statMsgs.add(msg)
 
-	// Delete channel from channels
-	ch.tru.mu.Lock()
-	defer ch.tru.mu.Unlock()
-	delete(ch.tru.channels, ch.addr.String())
+	// Send error event to readers
+	if ch.reader != nil {
+		ch.reader(ch, nil, ErrChannelDestroyed)
+	}
+	if ch.tru.reader != nil {
+		ch.tru.reader(ch, nil, ErrChannelDestroyed)
+	}
 }
 
 // Close tru channel
diff --git a/packet.go b/packet.go
index 44892f2..858ea5a 100644
--- a/packet.go
+++ b/packet.go
@@ -32,7 +32,7 @@ const (
 
 const (
 	maxUdpDataLength = 65535 - 8 - 20 // Max packet 65535 - 8 byte UDP and 20 byte IPv4 headers
-	cryptAesLength   = 28        // AES crypt delete from max len packet data
+	cryptAesLength   = 28             // AES crypt delete from max len packet data
 )
 
 const packetIDLimit = 0x100000          // Number of packets id (max number + 1)
diff --git a/send_queue.go b/send_queue.go
index 181eeca..1eb278a 100644
--- a/send_queue.go
+++ b/send_queue.go
@@ -18,6 +18,7 @@ type sendQueue struct {
 	index           map[uint32]*list.Element // Send queue index
 	sync.RWMutex                             // Send queue mutex
 	retransmitTimer *time.Timer              // Send queue retransmit Timer
+	destroyed       bool                     // Send queue is destroyed
 }
 
 const (
@@ -37,6 +38,7 @@ func (s *sendQueue) init(ch *Channel) {
 func (s *sendQueue) destroy() {
 	s.Lock()
 	defer s.Unlock()
+	s.destroyed = true
 	s.retransmitTimer.Stop()
 }
 
@@ -116,6 +118,9 @@ func (s *sendQueue) retransmit(ch *Channel) {
 	s.Lock()
 	defer s.Unlock()
 
+	if s.destroyed {
+		return
+	}
 	s.retransmitTimer = time.AfterFunc( /* minRTT */ 100*time.Millisecond, func() {
 
 		s.RLock()
diff --git a/speed.go b/speed.go
index a85d407..3709004 100644
--- a/speed.go
+++ b/speed.go
@@ -19,6 +19,7 @@ type speed struct {
 	currentSum int
 	sumArray   [sumArrayLen]int
 	timer      *time.Timer
+	stopped    bool
 	sync.RWMutex
 }
 
@@ -32,6 +33,7 @@ func (s *speed) destroy() {
 	s.Lock()
 	defer s.Unlock()
 
+	s.stopped = true
 	if s.timer != nil {
 		s.timer.Stop()
 	}
@@ -76,6 +78,9 @@ func (s *speed) process() {
 	s.Lock()
 	defer s.Unlock()
 
+	if s.stopped {
+		return
+	}
 	s.timer = time.AfterFunc(100*time.Millisecond, func() {
 		s.add(false)
 		s.process()
diff --git a/statistic.go b/statistic.go
index f8dd38b..93e9b46 100644
--- a/statistic.go
+++ b/statistic.go
@@ -57,15 +57,19 @@ func (s *statistic) init(inactive, keepalive func()) {
 	s.recvSpeed.init()
 }
 
-// destroy statistic
-func (s *statistic) destroy() {
+// destroy statistic, return false if it was already destroyed
+func (s *statistic) destroy() bool {
 	s.Lock()
 	defer s.Unlock()
 
+	if s.destroyed {
+		return false
+	}
 	s.checkActivityTimer.Stop()
 	s.sendSpeed.destroy()
 	s.recvSpeed.destroy()
 	s.destroyed = true
+	return true
 }
 
 // isDestroyed return true if channel is already destroyed
@@ -180,6 +184,9 @@ func (s *statistic) checkActivity(inactive, keepalive func()) {
 	s.Lock()
 	defer s.Unlock()
 
+	if s.destroyed {
+		return
+	}
 	s.checkActivityTimer = time.AfterFunc(checkInactiveAfter, func() {
 
 		lastActivity := s.getLastActivity()
-- 
2.43.0


From 1c8173165343731f0d301fd2e2b851b65b79e025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:59 +0000
Subject: [PATCH 06/27] fix: do not receive packets in the goroutine which runs
 callbacks

Punch and disconnect callbacks ran in the listen goroutine, and a reader
which was busy with ten more messages waiting blocked it too. Connecting
from such a callback could not succeed, and a connection nobody reads
stopped all other channels of the node.
---
 channel.go      | 41 +++++++++++++++++++++-------
 reader_queue.go | 71 +++++++++++++++++++++++++++++++++++++++++++++++++
 statistic.go    |  2 +-
 tru.go          | 57 ++++++++++++++++++++++++++++-----------
 4 files changed, 145 insertions(+), 26 deletions(-)
 create mode 100644 reader_queue.go

diff --git a/channel.go b/channel.go
index b3eee7c..4f2d417 100644
--- a/channel.go
+++ b/channel.go
@@ -12,6 +12,7 @@ import (
 	"math/rand"
 	"net"
 	"reflect"
+	"sync/atomic"
 	"time"
 )
 
@@ -26,6 +27,7 @@ type Channel struct {
 	recvQueue  receiveQueue  // Receive queue
 	tru        *Tru          // Pointer to tru
 	combine    combinePacket // Combine lage packet
+	pending    atomic.Int64  // Number of messages waiting for the reader
 	writeLock  chan struct{} // Write lock: packets of one message go in a row
 	maxDataLen int           // Max data len in created packets
 	*crypt                   // Crypt module
@@ -133,15 +135,40 @@ func (ch *Channel) setReader(reader ReaderFunc) {
 	ch.reader = reader
 }
 
-// destroy destroy channel
+// destroy destroy channel and send error event to readers
 func (ch *Channel) destroy(msg string) {
+	if ch.remove(msg) {
+		ch.readDestroyed()
+	}
+}
+
+// destroyed destroy channel and send error event to readers queue. It should be
+// used by packets listener which can't wait until readers executes
+func (ch *Channel) destroyed(msg string) {
+	if ch.remove(msg) {
+		ch.tru.readerCh.add(readerChData{call: ch.readDestroyed})
+	}
+}
+
+// readDestroyed send channel destroyed error to readers
+func (ch *Channel) readDestroyed() {
+	if ch.reader != nil {
+		ch.reader(ch, nil, ErrChannelDestroyed)
+	}
+	if ch.tru.reader != nil {
+		ch.tru.reader(ch, nil, ErrChannelDestroyed)
+	}
+}
+
+// remove stop and remove channel, return false if it was already removed
+func (ch *Channel) remove(msg string) bool {
 	if ch == nil {
-		return
+		return false
 	}
 
 	// Destroy statistic and sendQueue. Only first call of destroy continues
 	if !ch.stat.destroy() {
-		return
+		return false
 	}
 	ch.sendQueue.destroy()
 
@@ -157,13 +184,7 @@ func (ch *Channel) destroy(msg string) {
 	log.Connect.Println(msg)
 	ch.tru.statMsgs.add(msg)
 
-	// Send error event to readers
-	if ch.reader != nil {
-		ch.reader(ch, nil, ErrChannelDestroyed)
-	}
-	if ch.tru.reader != nil {
-		ch.tru.reader(ch, nil, ErrChannelDestroyed)
-	}
+	return true
 }
 
 // Close tru channel
diff --git a/reader_queue.go b/reader_queue.go
new file mode 100644
index 0000000..6bd66ed
--- /dev/null
+++ b/reader_queue.go
@@ -0,0 +1,71 @@
+// Copyright 2022 Kirill Scherba <kirill@scherba.ru>. All rights reserved.
+// Use of this source code is governed by a BSD-style
+// license that can be found in the LICENSE file.
+
+// TRU Reader queue module
+
+package tru
+
+import "sync"
+
+// maxPending is number of received messages of one channel which may wait for
+// the channels reader. When there is more of them new data packets of this
+// channel are not accepted and the remote peer will send them later.
+const maxPending = 1024
+
+// readerQueue is queue of events waiting for users callbacks. Adding to this
+// queue never blocks, so the packets listener works while a callback executes.
+type readerQueue struct {
+	events []readerChData
+	closed bool
+	cond   *sync.Cond
+	sync.Mutex
+}
+
+// init reader queue
+func (q *readerQueue) init() {
+	q.cond = sync.NewCond(&q.Mutex)
+}
+
+// add event to the queue
+func (q *readerQueue) add(event readerChData) {
+	q.Lock()
+	defer q.Unlock()
+
+	q.events = append(q.events, event)
+	q.cond.Signal()
+}
+
+// get waits for and returns next event, return false if queue closed and empty
+func (q *readerQueue) get() (event readerChData, ok bool) {
+	q.Lock()
+	defer q.Unlock()
+
+	for len(q.events) == 0 {
+		if q.closed {
+			return
+		}
+		q.cond.Wait()
+	}
+	event, ok = q.events[0], true
+	q.events[0] = readerChData{}
+	q.events = q.events[1:]
+	return
+}
+
+// close queue, events which are already in the queue will be got
+func (q *readerQueue) close() {
+	q.Lock()
+	defer q.Unlock()
+
+	q.closed = true
+	q.cond.Broadcast()
+}
+
+// len return number of events in queue
+func (q *readerQueue) len() int {
+	q.Lock()
+	defer q.Unlock()
+
+	return len(q.events)
+}
diff --git a/statistic.go b/statistic.go
index 93e9b46..6e3c16b 100644
--- a/statistic.go
+++ b/statistic.go
@@ -364,7 +364,7 @@ func (tru *Tru) printStatistic(prnt bool) {
 			term.Func.ClearLine()+"%s\n"+
 			term.Func.ClearLine(),
 			tru.LocalAddr().String(),
-			len(tru.readerCh),
+			tru.readerCh.len(),
 			len(tru.senderCh),
 			time.Since(tru.start),
 			table,
diff --git a/tru.go b/tru.go
index 8721240..1e27e9d 100644
--- a/tru.go
+++ b/tru.go
@@ -29,7 +29,7 @@ type Tru struct {
 	reader     ReaderFunc          // Global tru reader callback
 	punchcb    PunchFunc           // Punch packet callback
 	connectcb  ConnectFunc         // Connect to this server callback
-	readerCh   chan readerChData   // Reader channel
+	readerCh   readerQueue         // Reader queue
 	senderCh   chan senderChData   // Sender channel
 	connect    connect             // Connect methods receiver
 	sendDelay  int                 // Common send delay
@@ -47,7 +47,7 @@ type Stat bool          // Parameters show statistic type
 type Hotkey bool        // Parameters start hotkey menu
 type MaxDataLenType int // Max data length type
 
-// Lengs of readerChData and senderChData
+// Lengs of senderChData
 const (
 	chanLen        = 10
 	startSendDelay = 15 // 250
@@ -169,7 +169,7 @@ func New(port int, params ...interface{}) (tru *Tru, err error) {
 	}
 
 	// Start packet reader processing
-	tru.readerCh = make(chan readerChData, chanLen)
+	tru.readerCh.init()
 	go tru.readerProccess()
 
 	// Start packet sender processing
@@ -204,9 +204,18 @@ func (tru *Tru) Close() {
 
 // SetPunchCb set punch callback
 func (tru *Tru) SetPunchCb(punchcb PunchFunc) {
+	tru.mu.Lock()
+	defer tru.mu.Unlock()
 	tru.punchcb = punchcb
 }
 
+// getPunchCb get punch callback
+func (tru *Tru) getPunchCb() PunchFunc {
+	tru.mu.RLock()
+	defer tru.mu.RUnlock()
+	return tru.punchcb
+}
+
 // SetSendDelay set default (start) clients send delay
 func (tru *Tru) SetSendDelay(delay int) {
 	tru.sendDelay = delay
@@ -332,21 +341,23 @@ func (tru *Tru) serve(n int, addr net.Addr, data []byte) {
 		// When got connect packet from existing channel we destroy this channel
 		// first becaus client reconnected
 		if channelExists && pac.Status() == statusConnect {
-			ch.destroy(fmt.Sprint("channel reconnect, destroy ", ch.addr.String()))
+			ch.destroyed(fmt.Sprint("channel reconnect, destroy ", ch.addr.String()))
 		}
 		// Process connection packets
 		err := tru.connect.serve(tru, addr, pac)
 		if channelExists && err != nil {
-			ch.destroy(fmt.Sprint("channel connection error, destroy ", ch.addr.String()))
+			ch.destroyed(fmt.Sprint("channel connection error, destroy ", ch.addr.String()))
 		}
 		return
 
 	// Punch packets: hi level software (f.e. teonet package) use punch packets
 	// to make p2p connection between tru clients
 	case statusPunch:
-		if tru.punchcb != nil {
-			tru.punchcb(addr, pac.Data())
-		}
+		tru.readerCh.add(readerChData{call: func() {
+			if punchcb := tru.getPunchCb(); punchcb != nil {
+				punchcb(addr, pac.Data())
+			}
+		}})
 		return
 
 	// Wrong packets: some other packets received when channel does not exists
@@ -380,10 +391,14 @@ func (tru *Tru) serve(n int, addr net.Addr, data []byte) {
 		}
 
 	case statusDisconnect:
-		ch.destroy(fmt.Sprint("channel disconnect received, destroy ", ch.addr.String()))
+		ch.destroyed(fmt.Sprint("channel disconnect received, destroy ", ch.addr.String()))
 		return
 
 	case statusData, statusDataNext:
+		// The reader does not keep up, don't accept the packet now
+		if ch.pending.Load() >= maxPending {
+			break
+		}
 		pac.data, err = ch.decryptPacketData(pac.ID(), pac.Data())
 		if err != nil {
 			return
@@ -412,7 +427,8 @@ func (tru *Tru) serve(n int, addr net.Addr, data []byte) {
 				if pac == nil {
 					return
 				}
-				tru.readerCh <- readerChData{ch, pac, nil}
+				ch.pending.Add(1)
+				tru.readerCh.add(readerChData{ch: ch, pac: pac})
 				ch.stat.setRecv()
 			}
 			sendToReader(ch, pac)
@@ -435,14 +451,25 @@ type ConnectFunc func(*Channel, error)
 type PunchFunc func(addr net.Addr, data []byte)
 
 type readerChData struct {
-	ch  *Channel
-	pac *Packet
-	err error
+	ch   *Channel
+	pac  *Packet
+	call func() // Execute this callback instead of readers
 }
 
-// readerProccess process received tru packets
+// readerProccess process received tru packets and execute users callbacks
 func (tru *Tru) readerProccess() {
-	for r := range tru.readerCh {
+	for {
+		r, ok := tru.readerCh.get()
+		if !ok {
+			return
+		}
+
+		// Execute other callbacks
+		if r.call != nil {
+			r.call()
+			continue
+		}
+		r.ch.pending.Add(-1)
 
 		// Check channel destroyed
 		if r.ch.stat.isDestroyed() {
-- 
2.43.0


From d3f1162d94ee36c99f35a20fb52905f047b72744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:06 +0000
Subject: [PATCH 07/27] fix: make the connect handshake robust

Duplicated or late handshake packets destroyed or replaced established
channels or panicked (send on a closed channel, nil channel), a connect
packet from anybody created a channel, failed connects left half-open
channels behind, data was accepted and sent unencrypted before the session
key was set, the connect callback ran under the channels lock before the
channel was usable, the reader given to Connect missed the first messages,
and peers which connected to each other at the same time ended with
different session keys. Now a channel is created only when its session key
is known, handshake packets are accepted once, and a failed connect removes
what it created.
---
 channel.go |  44 +++++---
 connect.go | 323 ++++++++++++++++++++++++++++++++++++++++-------------
 tru.go     |  17 ++-
 3 files changed, 282 insertions(+), 102 deletions(-)

diff --git a/channel.go b/channel.go
index 4f2d417..c790381 100644
--- a/channel.go
+++ b/channel.go
@@ -38,24 +38,27 @@ type Channel struct {
 var ErrChannelDestroyed = errors.New("channel destroyed")
 var ErrChannelAlreadyDestroyed = errors.New("channel already destroyed")
 
-// NewChannel create new tru channel by address
-func (tru *Tru) newChannel(addr net.Addr, serverMode ...bool) (ch *Channel, err error) {
-	tru.mu.Lock()
-	defer tru.mu.Unlock()
+// newChannel create new tru channel by address with session key and reader. The
+// existing channel with this address will be destroyed
+func (tru *Tru) newChannel(addr net.Addr, serverMode bool, key []byte, reader ReaderFunc) (ch *Channel, err error) {
 
 	msg := fmt.Sprint("new channel ", addr.String())
 	log.Connect.Println(msg)
 	tru.statMsgs.add(msg)
 
 	ch = &Channel{addr: addr, tru: tru, maxDataLen: tru.maxDataLen,
+		serverMode: serverMode, reader: reader,
 		writeLock: make(chan struct{}, 1)}
-	if len(serverMode) > 0 {
-		ch.serverMode = serverMode[0]
-	}
 	ch.crypt, err = tru.newCrypt()
 	if err != nil {
 		return
 	}
+	ch.setSesionKey(key)
+
+	// Set default send delay in client mode
+	if !ch.serverMode {
+		ch.stat.sendDelay = tru.sendDelay
+	}
 	ch.sendQueue.init(ch)
 	ch.recvQueue.init(ch)
 	ch.stat.init(
@@ -72,16 +75,14 @@ func (tru *Tru) newChannel(addr net.Addr, serverMode ...bool) (ch *Channel, err
 			ch.writeToPing()
 		},
 	)
-	// Set default send delay in client mode
-	if !ch.serverMode {
-		ch.stat.sendDelay = tru.sendDelay
-	}
+
+	tru.mu.Lock()
+	old := tru.channels[addr.String()]
 	tru.channels[addr.String()] = ch
+	tru.mu.Unlock()
 
-	// Channel connect to server callback
-	if ch.serverMode && ch.tru.connectcb != nil {
-		ch.tru.connectcb(ch, nil)
-	}
+	// Client reconnected, destroy its previous channel
+	old.destroyed(fmt.Sprint("channel reconnect, destroy ", addr.String()))
 
 	return
 }
@@ -132,9 +133,18 @@ func (tru *Tru) WriteToPunch(data []byte, addri interface{}) (addr net.Addr, err
 
 // setReader sets channels reafer
 func (ch *Channel) setReader(reader ReaderFunc) {
+	ch.stat.Lock()
+	defer ch.stat.Unlock()
 	ch.reader = reader
 }
 
+// getReader gets channels reader
+func (ch *Channel) getReader() ReaderFunc {
+	ch.stat.RLock()
+	defer ch.stat.RUnlock()
+	return ch.reader
+}
+
 // destroy destroy channel and send error event to readers
 func (ch *Channel) destroy(msg string) {
 	if ch.remove(msg) {
@@ -152,8 +162,8 @@ func (ch *Channel) destroyed(msg string) {
 
 // readDestroyed send channel destroyed error to readers
 func (ch *Channel) readDestroyed() {
-	if ch.reader != nil {
-		ch.reader(ch, nil, ErrChannelDestroyed)
+	if reader := ch.getReader(); reader != nil {
+		reader(ch, nil, ErrChannelDestroyed)
 	}
 	if ch.tru.reader != nil {
 		ch.tru.reader(ch, nil, ErrChannelDestroyed)
diff --git a/connect.go b/connect.go
index 22dbd57..e8a8f8f 100644
--- a/connect.go
+++ b/connect.go
@@ -11,6 +11,7 @@ import (
 	"crypto/rsa"
 	"encoding/binary"
 	"errors"
+	"fmt"
 	"net"
 	"sync"
 	"time"
@@ -24,15 +25,32 @@ const (
 	ServerConnectTimeout = waitConnectionTimeout
 )
 
+// The server remembers uuids of accepted connections during this time to skip
+// repeated connect packets
+const acceptedTimeout = 60 * time.Second
+
 type connect struct {
 	connects map[string]*connectData // Connections map
+	accepts  map[string]*acceptData  // Accepts map
+	cleaned  time.Time               // Last time when accepts map was cleaned
 	m        sync.RWMutex            // Connections maps mutex
 }
 
+// connectData is outgoing connection data
 type connectData struct {
-	uuid string
-	wch  chan *connectData
-	ch   *Channel
+	uuid     string
+	wch      chan *Channel // Wait connection channel
+	addr     string        // Remote peer address
+	ch       *Channel      // Created channel
+	answered bool          // Server answer packet received
+	reader   ReaderFunc    // Channels reader
+}
+
+// acceptData is incoming connection data
+type acceptData struct {
+	time     time.Time // Time when last packet of this connection received
+	accepted bool      // Connection accepted
+	cross    string    // UUID of outgoing connection to the same peer
 }
 
 type connectPacketData struct {
@@ -105,67 +123,180 @@ func (tru *Tru) Connect(addr string, reader ...ReaderFunc) (ch *Channel, err err
 	if err != nil {
 		return
 	}
-
-	// Create wait connection channel and save connection data to map
-	wch := tru.connect.add(uuid)
-	defer tru.connect.delete(uuid)
-	defer close(wch)
-
-	// Send connect message
-	_, err = tru.WriteTo(pac, addr)
+	raddr, err := net.ResolveUDPAddr("udp", addr)
 	if err != nil {
 		return
 	}
 
-	// Wait answer to connect message or timeout
-	ch, err = tru.connect.wait(wch)
-	if err != nil {
-		return
+	// Create connection data and save it to map
+	cd := &connectData{uuid: uuid, wch: make(chan *Channel, 1), addr: raddr.String()}
+	if len(reader) > 0 {
+		cd.reader = reader[0]
 	}
+	tru.connect.add(cd)
 
-	// Add reader to channel
-	if len(reader) > 0 {
-		ch.reader = reader[0]
+	// Send connect message
+	_, err = tru.WriteTo(pac, raddr)
+	if err == nil {
+		// Wait answer to connect message or timeout
+		ch, err = tru.connect.wait(cd.wch)
+	}
+
+	// Remove connection data from map, remove channel if it was created but not
+	// connected
+	if created := tru.connect.delete(cd); err != nil && created != nil {
+		created.writeToDisconnect()
+		created.remove(fmt.Sprint("channel not connected, destroy ", created.addr.String()))
 	}
 	return
 }
 
 // wait channel connected or timeout
-func (c *connect) wait(wch chan *connectData) (ch *Channel, err error) {
+func (c *connect) wait(wch chan *Channel) (ch *Channel, err error) {
+	timer := time.NewTimer(waitConnectionTimeout)
+	defer timer.Stop()
 	select {
-	case cd := <-wch:
-		ch = cd.ch
+	case ch = <-wch:
 		return
-	case <-time.After(waitConnectionTimeout):
+	case <-timer.C:
 		err = errors.New("can't connect to peer during timeout")
 		return
 	}
 }
 
 // add add connection data to connections map
-func (c *connect) add(uuid string) (wch chan *connectData) {
+func (c *connect) add(cd *connectData) {
 	c.m.Lock()
 	defer c.m.Unlock()
-	wch = make(chan *connectData)
-	c.connects[uuid] = &connectData{uuid, wch, nil}
-	return
+	c.connects[cd.uuid] = cd
 }
 
-// delete delete connection data from connections map
-func (c *connect) delete(uuid string) {
+// delete delete connection data from connections map and return channel created
+// for this connection
+func (c *connect) delete(cd *connectData) (ch *Channel) {
 	c.m.Lock()
 	defer c.m.Unlock()
-	delete(c.connects, uuid)
+	delete(c.connects, cd.uuid)
+	return cd.ch
 }
 
-// get get connection data from connections map
-func (c *connect) get(uuid string) (cd *connectData, ok bool) {
-	c.m.RLock()
-	defer c.m.RUnlock()
+// answer find connection data of first server answer packet with this uuid
+func (c *connect) answer(uuid string) (cd *connectData, ok bool) {
+	c.m.Lock()
+	defer c.m.Unlock()
 	cd, ok = c.connects[uuid]
+	if !ok || cd.answered {
+		return nil, false
+	}
+	cd.answered = true
 	return
 }
 
+// setChannel set created channel to connection data, return false if connection
+// does not exists any more
+func (c *connect) setChannel(cd *connectData, ch *Channel) bool {
+	c.m.Lock()
+	defer c.m.Unlock()
+	if c.connects[cd.uuid] != cd {
+		return false
+	}
+	cd.ch = ch
+	return true
+}
+
+// done finish outgoing connection with channel ch or, if ch is nil, with channel
+// created for this connection
+func (c *connect) done(uuid string, ch *Channel) bool {
+	c.m.Lock()
+	defer c.m.Unlock()
+	cd, ok := c.connects[uuid]
+	if !ok || ch == nil && cd.ch == nil {
+		return false
+	}
+	if ch == nil {
+		ch = cd.ch
+		ch.stat.setLastActivity()
+	} else {
+		if cd.reader != nil {
+			ch.setReader(cd.reader)
+		}
+	}
+	delete(c.connects, uuid)
+	cd.wch <- ch
+	return true
+}
+
+// outgoing return uuid of outgoing connection to the address
+func (c *connect) outgoing(addr string) string {
+	for _, cd := range c.connects {
+		if cd.addr == addr {
+			return cd.uuid
+		}
+	}
+	return ""
+}
+
+// accept register incoming connection, return false if this connection already
+// accepted
+func (c *connect) accept(addr, uuid string) bool {
+	c.m.Lock()
+	defer c.m.Unlock()
+
+	// Remove outdated incoming connections
+	now := time.Now()
+	if now.Sub(c.cleaned) > time.Second {
+		c.cleaned = now
+		for key, ad := range c.accepts {
+			age := now.Sub(ad.time)
+			if age > acceptedTimeout || age > ServerConnectTimeout && !ad.accepted {
+				delete(c.accepts, key)
+			}
+		}
+	}
+
+	key := addr + " " + uuid
+	ad, ok := c.accepts[key]
+	if !ok {
+		ad = new(acceptData)
+		c.accepts[key] = ad
+	}
+	ad.time = now
+	if ad.cross == "" {
+		ad.cross = c.outgoing(addr)
+	}
+	return !ad.accepted
+}
+
+// accepted mark incoming connection as accepted, return false if there is no
+// such connection, or it was already accepted, or if peers connect to each other
+// and the outgoing connection should be used. The cross is uuid of outgoing
+// connection which should be replaced with this connection, and drop is channel
+// created for it.
+func (c *connect) accepted(addr, uuid string) (cross string, drop *Channel, ok bool) {
+	c.m.Lock()
+	defer c.m.Unlock()
+
+	ad, ok := c.accepts[addr+" "+uuid]
+	if !ok || ad.accepted || time.Since(ad.time) > ServerConnectTimeout {
+		return "", nil, false
+	}
+	ad.accepted = true
+	ad.time = time.Now()
+	if ad.cross == "" {
+		ad.cross = c.outgoing(addr)
+	}
+	if ad.cross == "" {
+		return "", nil, true
+	}
+	if uuid > ad.cross {
+		return "", nil, false
+	}
+	if cd, ok := c.connects[ad.cross]; ok {
+		drop = cd.ch
+	}
+	return ad.cross, drop, true
+}
+
 // serve process connect packets
 func (c *connect) serve(tru *Tru, addr net.Addr, pac *Packet) (err error) {
 	switch pac.Status() {
@@ -181,36 +312,42 @@ func (c *connect) serve(tru *Tru, addr net.Addr, pac *Packet) (err error) {
 			return
 		}
 
-		// Create new tru channel
-		var ch *Channel
-		ch, err = tru.newChannel(addr, true)
+		// Get public key
+		var crypt *crypt
+		crypt, err = tru.newCrypt()
 		if err != nil {
 			return
 		}
-
-		// Get public key
 		var pub []byte
-		pub, err = ch.publicKeyToBytes(&ch.privateKey.PublicKey)
+		pub, err = crypt.publicKeyToBytes(&crypt.privateKey.PublicKey)
 		if err != nil {
 			return
 		}
 
 		// Encrypt public key with received clients public key
 		var pubcli *rsa.PublicKey
-		pubcli, err = ch.bytesToPublicKey(cp.data)
+		pubcli, err = crypt.bytesToPublicKey(cp.data)
 		if err != nil {
 			return
 		}
-		cp.data, err = ch.encrypt(pubcli, pub)
+		cp.data, err = crypt.encrypt(pubcli, pub)
 		if err != nil {
 			return
 		}
 		var data []byte
 		data, err = cp.MarshalBinary()
+		if err != nil {
+			return
+		}
+
+		// Register incoming connection. The channel will be created when client
+		// answers
+		if !c.accept(addr.String(), string(cp.uuid)) {
+			return
+		}
 
-		// Create packet and send it to tru channel
-		pac = tru.newPacket().SetStatus(statusConnectServerAnswer).SetData(data)
-		ch.writeToSender(pac)
+		// Create packet and send it to client
+		err = tru.writeToConnect(statusConnectServerAnswer, data, addr)
 
 	// Got by client. Server answer to client with statusConnectServerAnswer
 	// packet with server public key
@@ -223,32 +360,33 @@ func (c *connect) serve(tru *Tru, addr net.Addr, pac *Packet) (err error) {
 			return
 		}
 
-		// Get connection data from connection map and create new tru channel
-		cd, ok := c.get(string(cp.uuid))
+		// Get connection data from connection map
+		cd, ok := c.answer(string(cp.uuid))
 		if !ok {
 			err = errors.New("wrong connect server answer packet")
 			return
 		}
-		cd.ch, err = tru.newChannel(addr)
+
+		// Got servers public key from packet
+		var crypt *crypt
+		crypt, err = tru.newCrypt()
 		if err != nil {
 			return
 		}
-
-		// Got servers public key from packet
 		var data []byte
-		data, err = cd.ch.decrypt(cp.data)
+		data, err = crypt.decrypt(cp.data)
 		if err != nil {
 			return
 		}
 		var pub *rsa.PublicKey
-		pub, err = cd.ch.crypt.bytesToPublicKey(data)
+		pub, err = crypt.bytesToPublicKey(data)
 		if err != nil {
 			return
 		}
 
 		// Make session key
-		key := cd.ch.makeSesionKey()
-		cp.data, err = cd.ch.encrypt(pub, key)
+		key := crypt.makeSesionKey()
+		cp.data, err = crypt.encrypt(pub, key)
 		if err != nil {
 			return
 		}
@@ -259,10 +397,19 @@ func (c *connect) serve(tru *Tru, addr net.Addr, pac *Packet) (err error) {
 			return
 		}
 
-		// Create packet and send it to tru channel
-		pac = tru.newPacket().SetStatus(statusConnectClientAnswer).SetData(data)
-		cd.ch.writeToSender(pac)
-		cd.ch.setSesionKey(key)
+		// Create new tru channel
+		var ch *Channel
+		ch, err = tru.newChannel(addr, false, key, cd.reader)
+		if err != nil {
+			return
+		}
+		if !c.setChannel(cd, ch) {
+			ch.remove(fmt.Sprint("channel not connected, destroy ", addr.String()))
+			return
+		}
+
+		// Create packet and send it to server
+		err = tru.writeToConnect(statusConnectClientAnswer, data, addr)
 
 	// Got by server. Client answer to server with statusConnectClientAnswer packet with
 	// current session key
@@ -275,20 +422,21 @@ func (c *connect) serve(tru *Tru, addr net.Addr, pac *Packet) (err error) {
 			return
 		}
 
-		// Get channel
-		ch, ok := tru.getChannel(addr.String())
-		if !ok {
-			err = errors.New("connected channel does not exists")
+		// Decrypt session key
+		var crypt *crypt
+		crypt, err = tru.newCrypt()
+		if err != nil {
 			return
 		}
-
-		// Decrypt and set session key
 		var key []byte
-		key, err = ch.decrypt(cp.data)
+		key, err = crypt.decrypt(cp.data)
 		if err != nil {
 			return
 		}
-		ch.setSesionKey(key)
+		if len(key) == 0 {
+			err = errors.New("empty session key")
+			return
+		}
 
 		// Create output connect packet data
 		var data []byte
@@ -298,9 +446,29 @@ func (c *connect) serve(tru *Tru, addr net.Addr, pac *Packet) (err error) {
 			return
 		}
 
-		// Create packet and send it to tru channel
-		pac = tru.newPacket().SetStatus(statusConnectDone).SetData(data)
-		ch.writeToSender(pac)
+		// Check incoming connection and create new tru channel
+		cross, drop, ok := c.accepted(addr.String(), string(cp.uuid))
+		if !ok {
+			err = errors.New("wrong connect client answer packet")
+			return
+		}
+		drop.remove(fmt.Sprint("channel replaced, destroy ", addr.String()))
+		var ch *Channel
+		ch, err = tru.newChannel(addr, true, key, nil)
+		if err != nil {
+			return
+		}
+		if cross != "" {
+			c.done(cross, ch)
+		}
+
+		// Create packet and send it to client
+		err = tru.writeToConnect(statusConnectDone, data, addr)
+
+		// Channel connect to server callback
+		if tru.connectcb != nil {
+			tru.readerCh.add(readerChData{call: func() { tru.connectcb(ch, nil) }})
+		}
 
 	// Got by client. Server answer to client with statusConnectDone packet
 	case statusConnectDone:
@@ -312,19 +480,24 @@ func (c *connect) serve(tru *Tru, addr net.Addr, pac *Packet) (err error) {
 			return
 		}
 
-		// Get connection data from connection map and get tru channel
-		cd, ok := c.get(string(cp.uuid))
-		if !ok {
+		// Finish outgoing connection
+		if !c.done(string(cp.uuid), nil) {
 			err = errors.New("wrong connect done packet")
-			return
 		}
 
-		// Send connectData to client connect wait channel
-		cd.wch <- cd
-
 	default:
 		err = errors.New("wrong packet status")
 	}
 
 	return
 }
+
+// writeToConnect writes connect packet to address
+func (tru *Tru) writeToConnect(status int, data []byte, addr net.Addr) (err error) {
+	data, err = tru.newPacket().SetStatus(status).SetData(data).MarshalBinary()
+	if err != nil {
+		return
+	}
+	_, err = tru.WriteTo(data, addr)
+	return
+}
diff --git a/tru.go b/tru.go
index 1e27e9d..3089b17 100644
--- a/tru.go
+++ b/tru.go
@@ -154,6 +154,7 @@ func New(port int, params ...interface{}) (tru *Tru, err error) {
 	tru.listenStop = make(chan interface{})
 	tru.channels = make(map[string]*Channel)
 	tru.connect.connects = make(map[string]*connectData)
+	tru.connect.accepts = make(map[string]*acceptData)
 	tru.conn, err = listenPacket("udp", ":"+strconv.Itoa(port))
 	if err != nil {
 		return
@@ -338,15 +339,11 @@ func (tru *Tru) serve(n int, addr net.Addr, data []byte) {
 
 	// Connect packets
 	case statusConnect, statusConnectServerAnswer, statusConnectClientAnswer, statusConnectDone:
-		// When got connect packet from existing channel we destroy this channel
-		// first becaus client reconnected
-		if channelExists && pac.Status() == statusConnect {
-			ch.destroyed(fmt.Sprint("channel reconnect, destroy ", ch.addr.String()))
-		}
-		// Process connection packets
+		// Process connection packets. When client reconnected the existing
+		// channel will be destroyed when new channel created
 		err := tru.connect.serve(tru, addr, pac)
-		if channelExists && err != nil {
-			ch.destroyed(fmt.Sprint("channel connection error, destroy ", ch.addr.String()))
+		if err != nil {
+			log.Debugv.Println("connect packet skipped, error:", err)
 		}
 		return
 
@@ -477,8 +474,8 @@ func (tru *Tru) readerProccess() {
 		}
 
 		// Execute channel reader
-		if r.ch.reader != nil {
-			if r.ch.reader(r.ch, r.pac, nil) {
+		if reader := r.ch.getReader(); reader != nil {
+			if reader(r.ch, r.pac, nil) {
 				continue
 			}
 		}
-- 
2.43.0


From 863b8ec812ff22801b8f40d2d24a942d1aba1e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:46 +0000
Subject: [PATCH 08/27] fix: enumerate channels without touching the map
 unlocked

The channels map was read without the lock, concurrently with writers, and
the function was called with nil for a channel removed meanwhile.
---
 channel.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/channel.go b/channel.go
index c790381..3bbc92c 100644
--- a/channel.go
+++ b/channel.go
@@ -11,7 +11,6 @@ import (
 	"fmt"
 	"math/rand"
 	"net"
-	"reflect"
 	"sync/atomic"
 	"time"
 )
@@ -115,10 +114,13 @@ func (tru *Tru) getChannel(addr string) (ch *Channel, ok bool) {
 // ForEachChannel get each channel and call function f
 func (tru *Tru) ForEachChannel(f func(ch *Channel)) {
 	tru.mu.RLock()
-	keys := reflect.ValueOf(tru.channels).MapKeys()
+	channels := make([]*Channel, 0, len(tru.channels))
+	for _, ch := range tru.channels {
+		channels = append(channels, ch)
+	}
 	tru.mu.RUnlock()
-	for i := range keys {
-		f(tru.channels[keys[i].String()])
+	for _, ch := range channels {
+		f(ch)
 	}
 }
 
-- 
2.43.0


From c84f629d5a46c94a306035b074a6acd730aef93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:14 +0000
Subject: [PATCH 09/27] fix: release everything when a node is closed

Close was not idempotent (closing twice panicked), the reader, sender and
hotkey/statistic timer resources stayed alive after it, senders blocked
forever, and channels could still be created on a closing node.
---
 channel.go   | 12 ++++++++++--
 statistic.go | 16 +++++++++++++---
 tru.go       | 37 ++++++++++++++++++++++++++++++-------
 3 files changed, 53 insertions(+), 12 deletions(-)

diff --git a/channel.go b/channel.go
index 3bbc92c..6cd1660 100644
--- a/channel.go
+++ b/channel.go
@@ -54,6 +54,12 @@ func (tru *Tru) newChannel(addr net.Addr, serverMode bool, key []byte, reader Re
 	}
 	ch.setSesionKey(key)
 
+	tru.mu.Lock()
+	if tru.closed {
+		tru.mu.Unlock()
+		return nil, ErrTruClosed
+	}
+
 	// Set default send delay in client mode
 	if !ch.serverMode {
 		ch.stat.sendDelay = tru.sendDelay
@@ -75,7 +81,6 @@ func (tru *Tru) newChannel(addr net.Addr, serverMode bool, key []byte, reader Re
 		},
 	)
 
-	tru.mu.Lock()
 	old := tru.channels[addr.String()]
 	tru.channels[addr.String()] = ch
 	tru.mu.Unlock()
@@ -404,7 +409,10 @@ func (ch *Channel) writeToDisconnect() (err error) {
 
 // writeToSender write packet to sender process channel
 func (ch *Channel) writeToSender(pac *Packet) {
-	ch.tru.senderCh <- senderChData{ch, pac}
+	select {
+	case ch.tru.senderCh <- senderChData{ch, pac}:
+	case <-ch.tru.listenStop: // tru closed
+	}
 }
 
 // newID create new channels packet id
diff --git a/statistic.go b/statistic.go
index 6e3c16b..66057a6 100644
--- a/statistic.go
+++ b/statistic.go
@@ -389,16 +389,26 @@ func (tru *Tru) printStatistic(prnt bool) {
 		return
 	}
 
-	// Print statistic every 500 ms
+	// Print statistic every 500 ms until it stopped
 	tru.mu.Lock()
 	defer tru.mu.Unlock()
-	tru.statTimer = time.AfterFunc(500*time.Millisecond, func() {
+	if tru.statTimer != nil || tru.closed {
+		return
+	}
+	var timer *time.Timer
+	timer = time.AfterFunc(500*time.Millisecond, func() {
 		str := getStat()
+		tru.mu.Lock()
+		defer tru.mu.Unlock()
+		if tru.statTimer != timer {
+			return
+		}
 		if prnt {
 			fmt.Print(str)
 		}
-		tru.printStatistic(prnt) // print next frame
+		timer.Reset(500 * time.Millisecond) // print next frame
 	})
+	tru.statTimer = timer
 }
 
 // StatisticPrintStop stop print statistic
diff --git a/tru.go b/tru.go
index 3089b17..79f723c 100644
--- a/tru.go
+++ b/tru.go
@@ -40,6 +40,7 @@ type Tru struct {
 	maxDataLen int                 // Max data len in created packets, 0 - maximum UDP len
 	listenStop chan interface{}    // Tru listen wait stop channel
 	hotkey     *hotkey.Hotkey      // Hotkey menu
+	closed     bool                // Tru is closed
 	mu         sync.RWMutex        // Channels map mutex
 }
 
@@ -83,6 +84,7 @@ func New(port int, params ...interface{}) (tru *Tru, err error) {
 	// Parse parameters
 	var logFilter teolog.Filter
 	var logLevel string
+	var startHotkey, startStat bool
 	for _, p := range params {
 		switch v := p.(type) {
 
@@ -118,15 +120,11 @@ func New(port int, params ...interface{}) (tru *Tru, err error) {
 
 		// Start hokey menu
 		case Hotkey:
-			if v {
-				tru.hotkey = tru.newHotkey()
-			}
+			startHotkey = bool(v)
 
 		// Show statistic
 		case Stat:
-			if v {
-				tru.StatisticPrint()
-			}
+			startStat = bool(v)
 
 		// Private key
 		case *rsa.PrivateKey:
@@ -166,6 +164,7 @@ func New(port int, params ...interface{}) (tru *Tru, err error) {
 	// }
 	tru.privateKey, err = GeneratePrivateKey()
 	if err != nil {
+		tru.conn.Close()
 		return
 	}
 
@@ -180,6 +179,14 @@ func New(port int, params ...interface{}) (tru *Tru, err error) {
 	// start listen to incoming udp packets
 	go tru.listen()
 
+	// Start hotkey menu and show statistic
+	if startHotkey {
+		tru.hotkey = tru.newHotkey()
+	}
+	if startStat {
+		tru.StatisticPrint()
+	}
+
 	log.Connect.Println("tru created")
 
 	return
@@ -188,6 +195,15 @@ func New(port int, params ...interface{}) (tru *Tru, err error) {
 // Close tru listner and all connected channels
 func (tru *Tru) Close() {
 
+	// Close once
+	tru.mu.Lock()
+	if tru.closed {
+		tru.mu.Unlock()
+		return
+	}
+	tru.closed = true
+	tru.mu.Unlock()
+
 	// Send error message to channel reader
 	if tru.reader != nil {
 		tru.reader(nil, nil, ErrTruClosed)
@@ -200,6 +216,7 @@ func (tru *Tru) Close() {
 	// Stop listner and statistic
 	tru.stopListen()
 	tru.StatisticPrintStop()
+	tru.readerCh.close()
 	log.Connect.Println("tru closed")
 }
 
@@ -494,7 +511,13 @@ type senderChData struct {
 
 // senderProccess process sended tru packets
 func (tru *Tru) senderProccess() {
-	for r := range tru.senderCh {
+	for {
+		var r senderChData
+		select {
+		case r = <-tru.senderCh:
+		case <-tru.listenStop:
+			return
+		}
 
 		// Check channel destroyed
 		if r.ch.stat.isDestroyed() {
-- 
2.43.0


From 570fe48a00edd1eb4eb98d3f65bdb7ef409150c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:05 +0000
Subject: [PATCH 10/27] fix: make net.Listener and net.Conn behave as
 documented

Connections could lose their first messages, an unread connection blocked
the whole node, Accept was not unblocked by Close, a second listener did
not listen, a closed node was used again by Dial, Addr returned nil, and
copies of Conn made concurrent and repeated closes crash.
---
 tru_net.go | 302 +++++++++++++++++++++++++++++++++--------------------
 1 file changed, 189 insertions(+), 113 deletions(-)

diff --git a/tru_net.go b/tru_net.go
index 9040972..5aafba7 100644
--- a/tru_net.go
+++ b/tru_net.go
@@ -19,43 +19,26 @@ import (
 // Trunet is receiver to create Tru net.Listener interface
 type Trunet struct {
 	*Tru
-	accept acceptChannel
+	accept acceptQueue
 }
-type acceptChannel chan *Channel
 
-// Common tru object
+// acceptQueue is queue of connections which wait for Accept
+type acceptQueue struct {
+	conns  []*Conn
+	closed bool
+	cond   *sync.Cond
+	sync.Mutex
+}
+
+// Common tru object used by all dialed connections
 var truCommon struct {
 	*Tru
+	conns int // Number of connections which use this object
 	sync.Mutex
 }
 
 // Listener is a tru generic network listener for stream-oriented protocols.
 func Listen(network, address string) (listener net.Listener, err error) {
-	listener, err = newTrunet(address, true)
-	return
-}
-
-// Dial connects to the address on the tru network
-func Dial(network, address string) (conn net.Conn, err error) {
-
-	trunet, err := newTrunet(":0", true)
-	if err != nil {
-		return
-	}
-
-	ch, err := trunet.Connect(address)
-	if err != nil {
-		return
-	}
-	c := trunet.newConn(ch)
-	ch.setReader(c.reader)
-	conn = c
-	return
-}
-
-// newTrunet creates new Trunet object
-func newTrunet(address string, useTruCommon bool) (trunet *Trunet, err error) {
-	trunet = new(Trunet)
 
 	// Parse the address and get port value
 	addr := strings.Split(address, ":")
@@ -69,116 +52,206 @@ func newTrunet(address string, useTruCommon bool) (trunet *Trunet, err error) {
 		return
 	}
 
-	// Make accept golan channel
-	trunet.accept = make(acceptChannel)
+	// Create new tru object which adds connected peers to the accept queue
+	trunet := new(Trunet)
+	trunet.accept.cond = sync.NewCond(&trunet.accept.Mutex)
+	trunet.Tru, err = newTruNet(port, trunet.connected)
+	if err != nil {
+		return
+	}
+	listener = trunet
+	return
+}
+
+// Dial connects to the address on the tru network
+func Dial(network, address string) (conn net.Conn, err error) {
 
-	// Create new tru object or use existing
+	// Create common tru object or use existing
 	truCommon.Lock()
-	defer truCommon.Unlock()
-	var truObj = truCommon.Tru
-	if !useTruCommon || truObj == nil {
-		truObj, err = New(port, trunet.connected, logLevel, Stat(showStats))
+	if truCommon.Tru == nil {
+		truCommon.Tru, err = newTruNet(0)
 		if err != nil {
-			err = fmt.Errorf("can't create new tru object, error: %s", err)
+			truCommon.Tru = nil
+			truCommon.Unlock()
 			return
 		}
-		if useTruCommon {
-			truCommon.Tru = truObj
-		}
 	}
-	trunet.Tru = truObj
-
-	return
-}
-
-// reader reads packets from connected peers
-func (conn *Conn) reader(ch *Channel, pac *Packet, err error) (processed bool) {
-	if conn.ch == nil {
+	truCommon.conns++
+	tru := truCommon.Tru
+	truCommon.Unlock()
+
+	// Connect to the remote peer. The connections reader should be set before
+	// the first message received
+	c := newConn(releaseTruCommon)
+	ch, err := tru.Connect(address, c.reader)
+	if err != nil {
+		releaseTruCommon()
 		return
 	}
+	c.setChannel(ch)
+	conn = c
+	return
+}
 
-	// Check channel destroyed and close Conn (connection)
+// newTruNet creates new tru object
+func newTruNet(port int, params ...interface{}) (tru *Tru, err error) {
+	tru, err = New(port, append(params, logLevel, Stat(showStats))...)
 	if err != nil {
-		if err == ErrChannelDestroyed {
-			err = conn.Close()
-			if err != nil {
-				// if connection already closed
-				return
-			}
-			// tru channel destroyed, connection closed
-			return
-		}
-		// Some other errors (I think it never happens)
-		log.Error.Println("got error in reader:", err)
-		return
+		err = fmt.Errorf("can't create new tru object, error: %s", err)
 	}
+	return
+}
 
-	defer func() {
-		if err := recover(); err != nil {
-			// This error happens if users application don't read data messages
-			// sent to it, when connection closed.
-			log.Debugvv.Println("send on closed channel panic occurred:", err)
-		}
-	}()
-
-	conn.read.ch <- pac.Data()
+// releaseTruCommon closes common tru object when its last connection closed
+func releaseTruCommon() {
+	truCommon.Lock()
+	truCommon.conns--
+	var tru *Tru
+	if truCommon.conns == 0 {
+		tru, truCommon.Tru = truCommon.Tru, nil
+	}
+	truCommon.Unlock()
 
-	return
+	if tru != nil {
+		tru.Close()
+	}
 }
 
 // connected to tru callback function
-func (t Trunet) connected(ch *Channel, err error) {
+func (t *Trunet) connected(ch *Channel, err error) {
 	if err != nil {
 		return
 	}
-	t.accept <- ch
-}
 
-// Create new Conn object
-func (t Trunet) newConn(ch *Channel) *Conn {
-	return &Conn{ch, t.LocalAddr(), ch.Addr(), connRead{ch: make(connReadChan)}}
+	// The connections reader should be set before the first message received
+	c := newConn(nil)
+	c.setChannel(ch)
+	ch.setReader(c.reader)
+	if ch.Destroyed() {
+		c.close(false)
+	}
+
+	t.accept.Lock()
+	defer t.accept.Unlock()
+	t.accept.conns = append(t.accept.conns, c)
+	t.accept.cond.Signal()
 }
 
 // Accept waits for and returns the next connection to the listener.
-func (t Trunet) Accept() (conn net.Conn, err error) {
-	ch := <-t.accept
-	c := t.newConn(ch)
-	ch.setReader(c.reader)
-	conn = c
+func (t *Trunet) Accept() (conn net.Conn, err error) {
+	t.accept.Lock()
+	defer t.accept.Unlock()
+
+	for len(t.accept.conns) == 0 && !t.accept.closed {
+		t.accept.cond.Wait()
+	}
+	if t.accept.closed {
+		err = ErrTruClosed
+		return
+	}
+	conn = t.accept.conns[0]
+	t.accept.conns = t.accept.conns[1:]
 	return
 }
 
 // Close closes the listener.
 // Any blocked Accept operations will be unblocked and return errors.
-func (t Trunet) Close() (err error) {
+func (t *Trunet) Close() (err error) {
+	t.accept.Lock()
+	if t.accept.closed {
+		t.accept.Unlock()
+		err = ErrTruClosed
+		return
+	}
+	t.accept.closed = true
+	t.accept.cond.Broadcast()
+	t.accept.Unlock()
+
 	t.Tru.Close()
 	return
 }
 
 // Addr returns the listener's network address.
-func (t Trunet) Addr() (addr net.Addr) { return }
+func (t *Trunet) Addr() (addr net.Addr) { return t.LocalAddr() }
 
 // Conn is a generic stream-oriented network connection.
 //
 // Multiple goroutines may invoke methods on a Conn simultaneously.
 type Conn struct {
-	ch         *Channel
-	localAddr  net.Addr
-	remoteAddr net.Addr
-	read       connRead
+	ch      *Channel   // Tru channel
+	read    connRead   // Data received from tru channel reader
+	closed  bool       // Connection closed
+	release func()     // Executes once when connection closed
+	cond    *sync.Cond // Wakes up blocked Read
+	mu      sync.Mutex // Connection mutex
 }
 type connRead struct {
-	ch   connReadChan // Read channel receive data form tru channel reader
-	buf  []byte       // Read data which was not send in previuse call
-	cont bool         // Need send os.EOF
+	queue     [][]byte // Received messages
+	buf       []byte   // Read data which was not send in previuse call
+	cont      bool     // Need send os.EOF
+	destroyed bool     // There will not be new messages
+}
+
+// newConn creates new Conn object
+func newConn(release func()) (c *Conn) {
+	c = &Conn{release: release}
+	c.cond = sync.NewCond(&c.mu)
+	return
+}
+
+// setChannel sets connections tru channel
+func (c *Conn) setChannel(ch *Channel) {
+	c.mu.Lock()
+	defer c.mu.Unlock()
+	c.ch = ch
+}
+
+// reader reads packets from connected peers
+func (c *Conn) reader(ch *Channel, pac *Packet, err error) (processed bool) {
+
+	// Tru channel destroyed, received messages can be read after that
+	if err != nil {
+		if c.close(false) && c.release != nil {
+			c.release()
+		}
+		return
+	}
+
+	c.mu.Lock()
+	defer c.mu.Unlock()
+	if c.closed {
+		return true
+	}
+	ch.pending.Add(1) // don't receive too many messages if nobody reads it
+	c.read.queue = append(c.read.queue, pac.Data())
+	c.cond.Signal()
+
+	return true
+}
+
+// close connection. It returns false if connection was already closed
+func (c *Conn) close(dropReceived bool) bool {
+	c.mu.Lock()
+	defer c.mu.Unlock()
+
+	if dropReceived {
+		c.read = connRead{}
+	}
+	c.read.destroyed = true
+	c.cond.Broadcast()
+	if c.closed {
+		return false
+	}
+	c.closed = true
+	return true
 }
-type connReadChan chan connReadChanData
-type connReadChanData []byte
 
 // Read reads data from the connection.
 // Read can be made to time out and return an error after a fixed
 // time limit; see SetDeadline and SetReadDeadline.
 func (c *Conn) Read(b []byte) (n int, err error) {
+	c.mu.Lock()
+	defer c.mu.Unlock()
 
 	// Return io.EOF
 	if len(c.read.buf) == 0 && c.read.cont {
@@ -189,14 +262,17 @@ func (c *Conn) Read(b []byte) (n int, err error) {
 
 	// Get data from reader
 	if len(c.read.buf) == 0 {
-		chanData, ok := <-c.read.ch
-		if !ok {
-			// Read channel closed
-			err = ErrChannelDestroyed
-			return
+		for len(c.read.queue) == 0 {
+			if c.read.destroyed {
+				err = ErrChannelDestroyed
+				return
+			}
+			c.cond.Wait()
 		}
-		c.read.buf = chanData
+		c.read.buf = c.read.queue[0]
+		c.read.queue = c.read.queue[1:]
 		c.read.cont = true
+		c.ch.pending.Add(-1)
 	}
 
 	// Copy data to input slice
@@ -209,8 +285,11 @@ func (c *Conn) Read(b []byte) (n int, err error) {
 // Write writes data to the connection.
 // Write can be made to time out and return an error after a fixed
 // time limit; see SetDeadline and SetWriteDeadline.
-func (c Conn) Write(b []byte) (n int, err error) {
-	if c.ch == nil {
+func (c *Conn) Write(b []byte) (n int, err error) {
+	c.mu.Lock()
+	closed := c.closed
+	c.mu.Unlock()
+	if closed {
 		err = ErrChannelDestroyed
 		return
 	}
@@ -224,25 +303,22 @@ func (c Conn) Write(b []byte) (n int, err error) {
 // Close closes the connection.
 // Any blocked Read or Write operations will be unblocked and return errors.
 func (c *Conn) Close() (err error) {
-
-	if c.ch == nil {
+	if !c.close(true) {
 		err = ErrChannelAlreadyDestroyed
 		return
 	}
-
-	ch := c.ch
-	c.ch = nil
-	ch.Close()
-	close(c.read.ch)
-
+	c.ch.Close()
+	if c.release != nil {
+		c.release()
+	}
 	return
 }
 
 // LocalAddr returns the local network address, if known.
-func (c Conn) LocalAddr() net.Addr { return c.localAddr }
+func (c *Conn) LocalAddr() net.Addr { return c.ch.tru.LocalAddr() }
 
 // RemoteAddr returns the remote network address, if known.
-func (c Conn) RemoteAddr() net.Addr { return c.remoteAddr }
+func (c *Conn) RemoteAddr() net.Addr { return c.ch.Addr() }
 
 // SetDeadline sets the read and write deadlines associated
 // with the connection. It is equivalent to calling both
@@ -265,16 +341,16 @@ func (c Conn) RemoteAddr() net.Addr { return c.remoteAddr }
 // the deadline after successful Read or Write calls.
 //
 // A zero value for t means I/O operations will not time out.
-func (c Conn) SetDeadline(t time.Time) (err error) { return }
+func (c *Conn) SetDeadline(t time.Time) (err error) { return }
 
 // SetReadDeadline sets the deadline for future Read calls
 // and any currently-blocked Read call.
 // A zero value for t means Read will not time out.
-func (c Conn) SetReadDeadline(t time.Time) (err error) { return }
+func (c *Conn) SetReadDeadline(t time.Time) (err error) { return }
 
 // SetWriteDeadline sets the deadline for future Write calls
 // and any currently-blocked Write call.
 // Even if write times out, it may return n > 0, indicating that
 // some of the data was successfully written.
 // A zero value for t means Write will not time out.
-func (c Conn) SetWriteDeadline(t time.Time) (err error) { return }
+func (c *Conn) SetWriteDeadline(t time.Time) (err error) { return }
-- 
2.43.0


From a808d29cc1d79794daa33a0827695ecee7a862b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:54 +0000
Subject: [PATCH 11/27] fix: show send queue length and retransmit attempts of
 all channels

The values were written to a stale copy of the statistics slice, so only the
channels appended after its last growth showed them.
---
 statistic.go | 64 +++++++++++++++++++---------------------------------
 1 file changed, 23 insertions(+), 41 deletions(-)

diff --git a/statistic.go b/statistic.go
index 66057a6..556bd42 100644
--- a/statistic.go
+++ b/statistic.go
@@ -227,53 +227,35 @@ type ChannelsStatistic []ChannelStatistic
 // Statistic get statistic
 func (tru *Tru) Statistic() (stat ChannelsStatistic) {
 
-	var wg sync.WaitGroup
-	var mu sync.Mutex
-
-	// The Statistic function needs values from send queue and send queue needs
-	// values from statistic so they race. We use WaitGroup and goroutines which
-	// wait while send queue unlock and add values to ChannelsStatistic slice.
-	getRetransmitAttempts := func(stat ChannelsStatistic, ch *Channel, i int) {
-		wg.Add(1)
-		go func() {
-			mu.Lock()
-			defer mu.Unlock()
-			defer wg.Done()
-			// Add RTA and SQ to channel statistic slice
-			stat[i].RTA = ch.sendQueue.getRetransmitAttempts()
-			stat[i].SQ = uint(ch.sendQueue.len())
-		}()
-	}
+	// Append channels statistic to slice. Don't lock statistic and queues at the
+	// same time because send queue needs values from statistic
+	tru.ForEachChannel(func(ch *Channel) {
+		rta := ch.sendQueue.getRetransmitAttempts()
+		sq := uint(ch.sendQueue.len())
+		rq := uint(ch.recvQueue.len())
 
-	// Append channels statistic to slice
-	var i int
-	mu.Lock()
-	tru.mu.RLock()
-	for _, ch := range tru.channels {
 		ch.stat.RLock()
+		defer ch.stat.RUnlock()
+		if ch.stat.destroyed {
+			return
+		}
 		stat = append(stat, ChannelStatistic{
-			Addr: ch.addr.String(),
-			Send: ch.stat.send,
-			Ssec: int64(ch.stat.sendSpeed.get()),
-			Rsnd: ch.stat.retransmit,
-			Ack:  ch.stat.ackRecv,
-			AckD: ch.stat.ackRecvDrop,
-			Recv: ch.stat.recv,
-			Rsec: int64(ch.stat.recvSpeed.get()),
-			Drop: ch.stat.drop,
-			// SQ:  get in getRetransmitAttempts()
-			RQ: uint(ch.recvQueue.len()),
-			// RTA: get in getRetransmitAttempts()
+			Addr:  ch.addr.String(),
+			Send:  ch.stat.send,
+			Ssec:  int64(ch.stat.sendSpeed.get()),
+			Rsnd:  ch.stat.retransmit,
+			Ack:   ch.stat.ackRecv,
+			AckD:  ch.stat.ackRecvDrop,
+			Recv:  ch.stat.recv,
+			Rsec:  int64(ch.stat.recvSpeed.get()),
+			Drop:  ch.stat.drop,
+			SQ:    sq,
+			RQ:    rq,
+			RTA:   rta,
 			Delay: ch.stat.sendDelay,
 			TT:    float64(ch.stat.tripTimeMidle.Microseconds()) / 1000.0,
 		})
-		ch.stat.RUnlock()
-		getRetransmitAttempts(stat, ch, i)
-		i++
-	}
-	tru.mu.RUnlock()
-	mu.Unlock()
-	wg.Wait()
+	})
 
 	// Sort slice with channels statistic by address
 	sort.Slice(stat, func(i, j int) bool {
-- 
2.43.0


From 40188df9afc52da9899edb5f17a812fc405c2a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:59 +0000
Subject: [PATCH 12/27] fix: hotkey menu may be changed while it runs

The menu was started before its keys were added and was not synchronised with
the goroutine which reads keys, a next-key action set by a next-key action was
lost, and a menu stopped by another goroutine executed one more action.
---
 hotkey.go        |  3 ++-
 hotkey/hotkey.go | 58 +++++++++++++++++++++++++++++++++++++++++-------
 2 files changed, 52 insertions(+), 9 deletions(-)

diff --git a/hotkey.go b/hotkey.go
index 3270824..7580b5a 100644
--- a/hotkey.go
+++ b/hotkey.go
@@ -48,7 +48,7 @@ func (tru *Tru) newHotkey() *hotkey.Hotkey {
 		os.Exit(0)
 	}
 	state := new(hotkeyMenuState)
-	h := hotkey.New().SetState(state).Run().
+	h := hotkey.New().SetState(state).
 
 		// Add action function which executes when unknown key pressed
 		AddUnknown(func(h *hotkey.Hotkey, ch []byte) {
@@ -143,6 +143,7 @@ func (tru *Tru) newHotkey() *hotkey.Hotkey {
 		// Quit from application
 		Add("q", "quit from application", quit)
 
+	h.Run()
 	fmt.Println("Hotkey menu startted, press 'h' to help...")
 	return h
 }
diff --git a/hotkey/hotkey.go b/hotkey/hotkey.go
index a125522..616e378 100644
--- a/hotkey/hotkey.go
+++ b/hotkey/hotkey.go
@@ -18,6 +18,7 @@ import (
 	"errors"
 	"fmt"
 	"sort"
+	"sync"
 
 	"github.com/teonet-go/tru/term"
 )
@@ -29,6 +30,7 @@ type Hotkey struct {
 	state         interface{}
 	stop          bool
 	stopactions   []func()
+	mu            sync.RWMutex
 }
 
 type hotkeyData struct {
@@ -63,17 +65,23 @@ func New() *Hotkey {
 // use in its hotkey menu. State is place where user can save its own menu
 // parameters
 func (h *Hotkey) SetState(state interface{}) *Hotkey {
+	h.mu.Lock()
+	defer h.mu.Unlock()
 	h.state = state
 	return h
 }
 
 // State return saved user menu state
 func (h *Hotkey) State() interface{} {
+	h.mu.RLock()
+	defer h.mu.RUnlock()
 	return h.state
 }
 
 // NextKeyAction set action which execute when key pressed nex time
 func (h *Hotkey) NextKeyAction(f func(ch []byte)) {
+	h.mu.Lock()
+	defer h.mu.Unlock()
 	h.nextKeyAction = f
 }
 
@@ -100,6 +108,8 @@ func (h *Hotkey) Add(keys interface{}, description string, action func(h *Hotkey
 	}
 
 	hd := &hotkeyData{keysAr, description, action}
+	h.mu.Lock()
+	defer h.mu.Unlock()
 	for _, l := range keysAr {
 		h.hotkeys[string(l.Code)] = hd
 	}
@@ -108,6 +118,8 @@ func (h *Hotkey) Add(keys interface{}, description string, action func(h *Hotkey
 
 // AddUnknown add action function which executes when unknown key pressed
 func (h *Hotkey) AddUnknown(action func(h *Hotkey, ch []byte)) *Hotkey {
+	h.mu.Lock()
+	defer h.mu.Unlock()
 	h.unknownKey = action
 	return h
 }
@@ -144,9 +156,11 @@ func (h *Hotkey) String() (str string) {
 	}
 
 	// Add hotkeyData to slice and sort it
+	h.mu.RLock()
 	for i := range h.hotkeys {
 		add(h.hotkeys[i])
 	}
+	h.mu.RUnlock()
 	sort()
 
 	// Add hotkeys and description to returns string
@@ -175,29 +189,54 @@ func (h *Hotkey) Run() *Hotkey {
 
 // Stop execute hotkey menu
 func (h *Hotkey) Stop() {
-	for _, f := range h.stopactions {
+	h.mu.Lock()
+	h.stop = true
+	stopactions := h.stopactions
+	h.mu.Unlock()
+
+	for _, f := range stopactions {
 		f()
 	}
-	h.stop = true
 }
 
 // SetStopAction set callback function which will run when hotkey menu Stop
 func (h *Hotkey) SetStopAction(f func()) {
+	h.mu.Lock()
+	defer h.mu.Unlock()
 	h.stopactions = append(h.stopactions, f)
 }
 
+// stopped return true if hotkey menu should be stopped
+func (h *Hotkey) stopped() bool {
+	h.mu.RLock()
+	defer h.mu.RUnlock()
+	return h.stop
+}
+
 // run execute hotkey menu, wait key pressed and execute it action
 func (h *Hotkey) run() {
-	for !h.stop {
+	for !h.stopped() {
 		ch := term.Getch()
-		if h.nextKeyAction != nil {
-			h.nextKeyAction(ch)
-			h.nextKeyAction = nil
+		if h.stopped() {
+			break
 		}
+
+		// Next key action executes once, it may set another next key action
+		h.mu.Lock()
+		nextKeyAction := h.nextKeyAction
+		h.nextKeyAction = nil
+		h.mu.Unlock()
+		if nextKeyAction != nil {
+			nextKeyAction(ch)
+		}
+
+		h.mu.RLock()
 		hd, ok := h.hotkeys[string(ch)]
+		unknownKey := h.unknownKey
+		h.mu.RUnlock()
 		if !ok {
-			if h.unknownKey != nil {
-				h.unknownKey(h, ch)
+			if unknownKey != nil {
+				unknownKey(h, ch)
 			}
 			continue
 		}
@@ -206,5 +245,8 @@ func (h *Hotkey) run() {
 		}
 		hd.action(h)
 	}
+
+	h.mu.Lock()
+	defer h.mu.Unlock()
 	h.stop = false
 }
-- 
2.43.0


From 98c1acbc6645544b15ce493fc878ad2ecf25a0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:03 +0000
Subject: [PATCH 13/27] fix: data races of configuration, trip time, logger and
 statistic log

The maximum data length, send delay, packet send time, logger level and
filter, and the messages log were read and written by different goroutines
without synchronisation.
---
 channel.go       |  9 +++++----
 packet.go        |  8 ++++++++
 statistic_log.go |  5 ++++-
 teolog/teolog.go | 52 +++++++++++++++++++++++++++++++++++++-----------
 tru.go           | 23 +++++++++++++++++----
 5 files changed, 76 insertions(+), 21 deletions(-)

diff --git a/channel.go b/channel.go
index 6cd1660..f6db030 100644
--- a/channel.go
+++ b/channel.go
@@ -45,8 +45,7 @@ func (tru *Tru) newChannel(addr net.Addr, serverMode bool, key []byte, reader Re
 	log.Connect.Println(msg)
 	tru.statMsgs.add(msg)
 
-	ch = &Channel{addr: addr, tru: tru, maxDataLen: tru.maxDataLen,
-		serverMode: serverMode, reader: reader,
+	ch = &Channel{addr: addr, tru: tru, serverMode: serverMode, reader: reader,
 		writeLock: make(chan struct{}, 1)}
 	ch.crypt, err = tru.newCrypt()
 	if err != nil {
@@ -60,7 +59,8 @@ func (tru *Tru) newChannel(addr net.Addr, serverMode bool, key []byte, reader Re
 		return nil, ErrTruClosed
 	}
 
-	// Set default send delay in client mode
+	// Set max data len, and default send delay in client mode
+	ch.maxDataLen = tru.maxDataLen
 	if !ch.serverMode {
 		ch.stat.sendDelay = tru.sendDelay
 	}
@@ -453,10 +453,11 @@ func (ch *Channel) setTripTime(id int) (tt time.Duration, err error) {
 		return
 	}
 
+	tt = time.Since(pac.getTime())
+
 	ch.stat.Lock()
 	defer ch.stat.Unlock()
 
-	tt = time.Since(pac.time)
 	ch.stat.tripTime = tt
 	if ch.stat.tripTimeMidle != 0 {
 		ch.stat.tripTimeMidle = (ch.stat.tripTimeMidle*9 + tt) / 10
diff --git a/packet.go b/packet.go
index 858ea5a..4c9a1bc 100644
--- a/packet.go
+++ b/packet.go
@@ -263,6 +263,14 @@ func (p *Packet) getRetransmitTime() (rtt time.Time) {
 	return p.retransmitTime
 }
 
+// getTime get time when packet was sent last time
+func (p *Packet) getTime() time.Time {
+	p.RLock()
+	defer p.RUnlock()
+
+	return p.time
+}
+
 // setRetransmitTime set retransmit time to packet
 func (p *Packet) setRetransmitTime(rtt time.Duration) {
 	p.Lock()
diff --git a/statistic_log.go b/statistic_log.go
index b801668..a6edce5 100644
--- a/statistic_log.go
+++ b/statistic_log.go
@@ -44,7 +44,10 @@ func (s *statisticLog) len() int {
 
 // get and returt statistic log slice message by index
 func (s *statisticLog) get(i int) (msg string) {
-	if i < 0 || i >= s.len() {
+	s.RLock()
+	defer s.RUnlock()
+
+	if i < 0 || i >= len(s.msgs) {
 		return
 	}
 	return s.msgs[i]
diff --git a/teolog/teolog.go b/teolog/teolog.go
index bddfe5a..d4d9797 100644
--- a/teolog/teolog.go
+++ b/teolog/teolog.go
@@ -13,6 +13,7 @@ import (
 	"log"
 	"os"
 	"strings"
+	"sync"
 )
 
 // Log levels constant
@@ -42,6 +43,7 @@ type Teolog struct {
 	level    LogLevel
 	filter   Filter
 	writer   writer
+	mu       sync.RWMutex
 }
 
 type LogLevel int
@@ -95,6 +97,13 @@ func (l *Teolog) SetLevel(leveli interface{}) {
 	case string:
 		level = l.levelFromStr(v)
 	}
+	l.mu.Lock()
+	defer l.mu.Unlock()
+	l.setLevel(level)
+}
+
+// setLevel set log level, the mutex should be locked
+func (l *Teolog) setLevel(level LogLevel) {
 	l.level = level
 	for i, tl := range l.levels {
 		if LogLevel(i) < level {
@@ -107,21 +116,25 @@ func (l *Teolog) SetLevel(leveli interface{}) {
 
 // Level return current log level
 func (l *Teolog) Level() LogLevel {
+	l.mu.RLock()
+	defer l.mu.RUnlock()
 	return l.level
 }
 
 // String return current log level in string
 func (l *Teolog) String() string {
-	return l.levelToStr(l.level)
+	return l.levelToStr(l.Level())
 }
 
 // SwitchLevel switch level to nexet and return level number
 func (l *Teolog) SwitchLevel() LogLevel {
-	l.level++
-	if l.level >= numLevels {
-		l.level = 0
+	l.mu.Lock()
+	defer l.mu.Unlock()
+	level := l.level + 1
+	if level >= numLevels {
+		level = 0
 	}
-	l.SetLevel(l.level)
+	l.setLevel(level)
 	return l.level
 }
 
@@ -130,9 +143,9 @@ func (l *Teolog) SetFilter(f interface{}) {
 
 	switch v := f.(type) {
 	case Filter:
-		l.filter = v
+		l.setFilter(v)
 	case string:
-		l.filter = Logfilter(v)
+		l.setFilter(Logfilter(v))
 	default:
 		panic("wrong filter tipe")
 	}
@@ -141,16 +154,30 @@ func (l *Teolog) SetFilter(f interface{}) {
 
 // ClearFilter clear log filter
 func (l *Teolog) ClearFilter() {
-	l.filter = []string{}
+	l.setFilter(nil)
+}
+
+// setFilter set log filter
+func (l *Teolog) setFilter(f Filter) {
+	l.mu.Lock()
+	defer l.mu.Unlock()
+	l.filter = f
+}
+
+// getFilter get log filter
+func (l *Teolog) getFilter() Filter {
+	l.mu.RLock()
+	defer l.mu.RUnlock()
+	return l.filter
 }
 
 // Filter return log filter
 func (l *Teolog) Filter() (str string) {
-	for i := range l.filter {
+	for i, f := range l.getFilter() {
 		if i > 0 {
 			str += " || "
 		}
-		str += l.filter[i]
+		str += f
 	}
 	return
 }
@@ -249,13 +276,14 @@ type writer struct {
 // Write returns a non-nil error when n != len(b).
 func (w writer) Write(p []byte) (n int, err error) {
 	var valid bool
-	for _, f := range w.l.filter {
+	filter := w.l.getFilter()
+	for _, f := range filter {
 		if strings.Contains(string(p), f) {
 			valid = true
 			break
 		}
 	}
-	if len(w.l.filter) > 0 && !valid {
+	if len(filter) > 0 && !valid {
 		return
 	}
 	return os.Stdout.Write(p)
diff --git a/tru.go b/tru.go
index 79f723c..567e5bb 100644
--- a/tru.go
+++ b/tru.go
@@ -56,6 +56,7 @@ const (
 
 // Teolog
 var log *teolog.Teolog
+var logMutex sync.Mutex
 
 // Global flag "drop" drop send paskets for testing
 var drop = flag.Int("drop", 0, "drop send packets")
@@ -108,7 +109,7 @@ func New(port int, params ...interface{}) (tru *Tru, err error) {
 
 		// Teonet logger
 		case *teolog.Teolog:
-			log = v
+			setLog(v)
 
 		// Teonet loggers level
 		case string:
@@ -142,9 +143,7 @@ func New(port int, params ...interface{}) (tru *Tru, err error) {
 	}
 
 	// Log define and set filter
-	if log == nil {
-		log = teolog.New()
-	}
+	setLog(nil)
 	log.SetFilter(logFilter)
 	log.SetLevel(logLevel)
 
@@ -192,6 +191,18 @@ func New(port int, params ...interface{}) (tru *Tru, err error) {
 	return
 }
 
+// setLog set common logger or, if l is nil, create it if it is not defined yet
+func setLog(l *teolog.Teolog) {
+	logMutex.Lock()
+	defer logMutex.Unlock()
+	if l == nil && log == nil {
+		l = teolog.New()
+	}
+	if l != nil && l != log {
+		log = l
+	}
+}
+
 // Close tru listner and all connected channels
 func (tru *Tru) Close() {
 
@@ -236,6 +247,8 @@ func (tru *Tru) getPunchCb() PunchFunc {
 
 // SetSendDelay set default (start) clients send delay
 func (tru *Tru) SetSendDelay(delay int) {
+	tru.mu.Lock()
+	defer tru.mu.Unlock()
 	tru.sendDelay = delay
 }
 
@@ -244,6 +257,8 @@ func (tru *Tru) SetMaxDataLen(maxDataLen int) {
 	pac := tru.newPacket()
 	l := pac.MaxDataLen()
 	if maxDataLen >= 0 && maxDataLen <= l {
+		tru.mu.Lock()
+		defer tru.mu.Unlock()
 		tru.maxDataLen = maxDataLen
 	}
 }
-- 
2.43.0


From d3da7742418a02934bbb85be6e20cb2f197f4f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:12 +0000
Subject: [PATCH 14/27] fix: return keys as they were pressed

Enter was returned as newline, so the hotkey of Enter did not work, and Ctrl+S
and Ctrl+Q were not returned at all but stopped the terminal output.
---
 term/term_unix.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/term/term_unix.go b/term/term_unix.go
index a5ea72e..0f15bc0 100644
--- a/term/term_unix.go
+++ b/term/term_unix.go
@@ -36,6 +36,7 @@ func makeNonBlock(fd int) (*State, error) {
 
 	oldState := State{state{termios: *termios}}
 
+	termios.Iflag &^= unix.ISTRIP | unix.INLCR | unix.IGNCR | unix.ICRNL | unix.IXON
 	termios.Lflag &^= unix.ECHO | unix.ICANON | unix.ISIG
 	termios.Cc[unix.VMIN] = 1
 	termios.Cc[unix.VTIME] = 0
-- 
2.43.0


From 53ae5156723ab0aeee61d7d06e7b267b0b6de88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:32 +0000
Subject: [PATCH 15/27] fix: do not share memory of packet keys

A session key with spare capacity was overwritten by concurrent encryption and
decryption of packets with different ids.
---
 crypt.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypt.go b/crypt.go
index fe7b8d2..f05dd34 100644
--- a/crypt.go
+++ b/crypt.go
@@ -253,7 +253,7 @@ func (c crypt) ison() bool {
 func (k sessionKey) packetKey(id uint32, len int) []byte {
 	b := make([]byte, 4)
 	binary.LittleEndian.PutUint32(b, id)
-	key := append(k.bytes, b...)
+	key := append(append([]byte(nil), k.bytes...), b...)
 	// Hash key depend of data len
 	//   md5:    16 byte
 	//   sha1:   20 byte
-- 
2.43.0


From a31e18126badcb05e3959902c0c2c45f802219f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:39 +0000
Subject: [PATCH 16/27] fix: return id of the first packet of a split message

The reader gets a combined message with this id, WriteTo returned id of the
last but one packet.
---
 split.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/split.go b/split.go
index 12cba66..a5b2e45 100644
--- a/split.go
+++ b/split.go
@@ -24,7 +24,10 @@ func (ch *Channel) splitPacket(data []byte, writeTo func(data []byte, split int)
 			}
 			break
 		}
-		rid, err = writeTo(data[:maxDataLen], statusSplit)
+		id, err = writeTo(data[:maxDataLen], statusSplit)
+		if i == 0 {
+			rid = id
+		}
 		if err != nil {
 			return
 		}
-- 
2.43.0


From 03fa449a12c654bcb9f802fe333a0cc11e81887f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:05 +0000
Subject: [PATCH 17/27] fix: late answer of a superseded handshake does not
 replace the channel

---
 connect.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/connect.go b/connect.go
index e8a8f8f..c9f50f2 100644
--- a/connect.go
+++ b/connect.go
@@ -48,7 +48,8 @@ type connectData struct {
 
 // acceptData is incoming connection data
 type acceptData struct {
-	time     time.Time // Time when last packet of this connection received
+	addr     string    // Remote peer address
+	time     time.Time // Time when connect packet of this connection received
 	accepted bool      // Connection accepted
 	cross    string    // UUID of outgoing connection to the same peer
 }
@@ -257,10 +258,9 @@ func (c *connect) accept(addr, uuid string) bool {
 	key := addr + " " + uuid
 	ad, ok := c.accepts[key]
 	if !ok {
-		ad = new(acceptData)
+		ad = &acceptData{addr: addr, time: now}
 		c.accepts[key] = ad
 	}
-	ad.time = now
 	if ad.cross == "" {
 		ad.cross = c.outgoing(addr)
 	}
@@ -281,7 +281,14 @@ func (c *connect) accepted(addr, uuid string) (cross string, drop *Channel, ok b
 		return "", nil, false
 	}
 	ad.accepted = true
-	ad.time = time.Now()
+
+	// Late answer of previous connection from this peer should not replace this
+	// connection
+	for _, prev := range c.accepts {
+		if prev.addr == addr && prev.time.Before(ad.time) {
+			prev.accepted = true
+		}
+	}
 	if ad.cross == "" {
 		ad.cross = c.outgoing(addr)
 	}
-- 
2.43.0


From 9f9c8bfe9ac875d0b148c71a2da4b59aabae1164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:57 +0000
Subject: [PATCH 18/27] fix: packets of a previous channel do not reach the new
 one

Packets are accepted by a client channel only when the server switched to it,
a destroyed channel sends nothing more, and the connections which peers start
to each other at the same time do not leave half open channels.
---
 channel.go |  2 ++
 connect.go | 20 +++++++++++++++++---
 tru.go     | 18 ++++++++++--------
 3 files changed, 29 insertions(+), 11 deletions(-)

diff --git a/channel.go b/channel.go
index f6db030..9bfa4af 100644
--- a/channel.go
+++ b/channel.go
@@ -27,6 +27,7 @@ type Channel struct {
 	tru        *Tru          // Pointer to tru
 	combine    combinePacket // Combine lage packet
 	pending    atomic.Int64  // Number of messages waiting for the reader
+	connected  atomic.Bool   // Handshake finished, packets of this channel accepted
 	writeLock  chan struct{} // Write lock: packets of one message go in a row
 	maxDataLen int           // Max data len in created packets
 	*crypt                   // Crypt module
@@ -52,6 +53,7 @@ func (tru *Tru) newChannel(addr net.Addr, serverMode bool, key []byte, reader Re
 		return
 	}
 	ch.setSesionKey(key)
+	ch.connected.Store(serverMode)
 
 	tru.mu.Lock()
 	if tru.closed {
diff --git a/connect.go b/connect.go
index c9f50f2..3089425 100644
--- a/connect.go
+++ b/connect.go
@@ -34,6 +34,7 @@ type connect struct {
 	accepts  map[string]*acceptData  // Accepts map
 	cleaned  time.Time               // Last time when accepts map was cleaned
 	m        sync.RWMutex            // Connections maps mutex
+	order    sync.Mutex              // Connect and done packets order mutex
 }
 
 // connectData is outgoing connection data
@@ -134,10 +135,13 @@ func (tru *Tru) Connect(addr string, reader ...ReaderFunc) (ch *Channel, err err
 	if len(reader) > 0 {
 		cd.reader = reader[0]
 	}
-	tru.connect.add(cd)
 
-	// Send connect message
+	// Send connect message. If a connection from this peer is being accepted
+	// right now its done packet goes first
+	tru.connect.order.Lock()
+	tru.connect.add(cd)
 	_, err = tru.WriteTo(pac, raddr)
+	tru.connect.order.Unlock()
 	if err == nil {
 		// Wait answer to connect message or timeout
 		ch, err = tru.connect.wait(cd.wch)
@@ -216,7 +220,15 @@ func (c *connect) done(uuid string, ch *Channel) bool {
 	}
 	if ch == nil {
 		ch = cd.ch
-		ch.stat.setLastActivity()
+		ch.connected.Store(true)
+
+		// The peer replaced its own connections, which it started before it
+		// accepted this one, with this connection
+		for _, ad := range c.accepts {
+			if ad.addr == cd.addr {
+				ad.accepted = true
+			}
+		}
 	} else {
 		if cd.reader != nil {
 			ch.setReader(cd.reader)
@@ -454,6 +466,8 @@ func (c *connect) serve(tru *Tru, addr net.Addr, pac *Packet) (err error) {
 		}
 
 		// Check incoming connection and create new tru channel
+		c.order.Lock()
+		defer c.order.Unlock()
 		cross, drop, ok := c.accepted(addr.String(), string(cp.uuid))
 		if !ok {
 			err = errors.New("wrong connect client answer packet")
diff --git a/tru.go b/tru.go
index 567e5bb..cf47d8d 100644
--- a/tru.go
+++ b/tru.go
@@ -390,8 +390,10 @@ func (tru *Tru) serve(n int, addr net.Addr, data []byte) {
 		return
 
 	// Wrong packets: some other packets received when channel does not exists
+	// or the server did not switch to it yet, such packets may belong to the
+	// previous channel of this peers
 	default:
-		if !channelExists {
+		if !channelExists || !ch.connected.Load() {
 			return
 		}
 	}
@@ -534,19 +536,19 @@ func (tru *Tru) senderProccess() {
 			return
 		}
 
-		// Check channel destroyed
-		if r.ch.stat.isDestroyed() {
-			continue
-		}
-
 		// Marshal packet
 		data, err := r.pac.MarshalBinary()
 		if err != nil {
 			return
 		}
 
-		// Write packet to addr
-		tru.WriteTo(data, r.ch.addr)
+		// Write packet to addr. The channel can't be destroyed during write, so
+		// there are no packets of this channel after it
+		r.ch.stat.RLock()
+		if !r.ch.stat.destroyed {
+			tru.WriteTo(data, r.ch.addr)
+		}
+		r.ch.stat.RUnlock()
 	}
 }
 
-- 
2.43.0


From 005287e2a733ad3b43722c0d3cdb609c6051fb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:18 +0000
Subject: [PATCH 19/27] fix: keep a channel alive whose handshake was slow

The connect done packet is activity of the peer, and the server should hear
from the client before it finds the new channel inactive.
---
 connect.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/connect.go b/connect.go
index 3089425..b7aac4a 100644
--- a/connect.go
+++ b/connect.go
@@ -220,8 +220,15 @@ func (c *connect) done(uuid string, ch *Channel) bool {
 	}
 	if ch == nil {
 		ch = cd.ch
+		ch.stat.setLastActivity()
 		ch.connected.Store(true)
 
+		// The server waits for the first packet since it sent this one. If it
+		// was long ago don't wait for the keepalive time
+		if time.Since(ch.stat.started) > time.Second {
+			go ch.writeToPing()
+		}
+
 		// The peer replaced its own connections, which it started before it
 		// accepted this one, with this connection
 		for _, ad := range c.accepts {
-- 
2.43.0


From 3301b4f636206e8485a00a762d88917e4a658f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:32 +0000
Subject: [PATCH 20/27] fix: close a channel at once for everybody

A channel is unlisted when it becomes destroyed, and its disconnect packet
can't follow packets of a new channel with the same peer.
---
 channel.go   | 53 ++++++++++++++++++++++++++--------------------------
 connect.go   |  3 +--
 statistic.go |  8 ++++++--
 3 files changed, 34 insertions(+), 30 deletions(-)

diff --git a/channel.go b/channel.go
index 9bfa4af..c27e942 100644
--- a/channel.go
+++ b/channel.go
@@ -179,25 +179,25 @@ func (ch *Channel) readDestroyed() {
 	}
 }
 
-// remove stop and remove channel, return false if it was already removed
-func (ch *Channel) remove(msg string) bool {
+// remove stop and remove channel, return false if it was already removed. The
+// before functions are called right before the channel becomes destroyed
+func (ch *Channel) remove(msg string, before ...func()) bool {
 	if ch == nil {
 		return false
 	}
 
-	// Destroy statistic and sendQueue. Only first call of destroy continues
-	if !ch.stat.destroy() {
-		return false
-	}
-	ch.sendQueue.destroy()
-
-	// Delete channel from channels, new channel may already be connected from
-	// the same address
+	// Destroy statistic and delete channel from channels, new channel may already
+	// be connected from the same address. Only first call of remove continues
 	ch.tru.mu.Lock()
-	if ch.tru.channels[ch.addr.String()] == ch {
+	destroyed := ch.stat.destroy(before)
+	if destroyed && ch.tru.channels[ch.addr.String()] == ch {
 		delete(ch.tru.channels, ch.addr.String())
 	}
 	ch.tru.mu.Unlock()
+	if !destroyed {
+		return false
+	}
+	ch.sendQueue.destroy()
 
 	// Log messages
 	log.Connect.Println(msg)
@@ -208,11 +208,16 @@ func (ch *Channel) remove(msg string) bool {
 
 // Close tru channel
 func (ch *Channel) Close() {
-	if ch.stat.isDestroyed() {
-		return
+	if ch.disconnect(fmt.Sprint("channel close, destroy ", ch.addr.String())) {
+		ch.readDestroyed()
 	}
-	ch.writeToDisconnect()
-	ch.destroy(fmt.Sprint("channel close, destroy ", ch.addr.String()))
+}
+
+// disconnect stop and remove channel and send disconnect packet to the peer,
+// return false if channel was already removed. There are no packets of new
+// channel between this peers before the disconnect packet
+func (ch *Channel) disconnect(msg string) bool {
+	return ch.remove(msg, ch.writeToDisconnect)
 }
 
 // Destroyed return true if channel is already destroyed
@@ -322,13 +327,6 @@ func (ch *Channel) writeTo(data []byte, stat int, delivery []interface{}, ids ..
 		ch.stat.setLastSend(time.Now())
 	}
 
-	// Send disconnect packet immediately
-	if status == statusDisconnect {
-		data, _ := pac.MarshalBinary()
-		_, err = ch.tru.WriteTo(data, ch.addr)
-		return
-	}
-
 	// Drop packet for testing if drop flag is set. Drops every value of
 	// drop packet. If drop contain 5 than every 5th packet will be dropped
 	if *drop > 0 && status == statusData && !ch.serverMode && rand.Intn(*drop) == 0 {
@@ -403,10 +401,13 @@ func (ch *Channel) writeToAck(pac *Packet) (err error) {
 	return
 }
 
-// writeToDisconnect write disconnect packet
-func (ch *Channel) writeToDisconnect() (err error) {
-	_, err = ch.writeTo(nil, statusDisconnect, nil)
-	return
+// writeToDisconnect write disconnect packet immediately
+func (ch *Channel) writeToDisconnect() {
+	data, err := ch.tru.newPacket().SetStatus(statusDisconnect).MarshalBinary()
+	if err != nil {
+		return
+	}
+	ch.tru.WriteTo(data, ch.addr)
 }
 
 // writeToSender write packet to sender process channel
diff --git a/connect.go b/connect.go
index b7aac4a..9a3f22d 100644
--- a/connect.go
+++ b/connect.go
@@ -150,8 +150,7 @@ func (tru *Tru) Connect(addr string, reader ...ReaderFunc) (ch *Channel, err err
 	// Remove connection data from map, remove channel if it was created but not
 	// connected
 	if created := tru.connect.delete(cd); err != nil && created != nil {
-		created.writeToDisconnect()
-		created.remove(fmt.Sprint("channel not connected, destroy ", created.addr.String()))
+		created.disconnect(fmt.Sprint("channel not connected, destroy ", created.addr.String()))
 	}
 	return
 }
diff --git a/statistic.go b/statistic.go
index 556bd42..7cc14f3 100644
--- a/statistic.go
+++ b/statistic.go
@@ -57,14 +57,18 @@ func (s *statistic) init(inactive, keepalive func()) {
 	s.recvSpeed.init()
 }
 
-// destroy statistic, return false if it was already destroyed
-func (s *statistic) destroy() bool {
+// destroy statistic, return false if it was already destroyed. The before
+// functions are called if it was not
+func (s *statistic) destroy(before []func()) bool {
 	s.Lock()
 	defer s.Unlock()
 
 	if s.destroyed {
 		return false
 	}
+	for _, f := range before {
+		f()
+	}
 	s.checkActivityTimer.Stop()
 	s.sendSpeed.destroy()
 	s.recvSpeed.destroy()
-- 
2.43.0


From d1a354fb0d4ba41a620d5f83c331473c51cfde7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:11 +0000
Subject: [PATCH 21/27] fix: no connect and punch callbacks after a node is
 closed

---
 channel.go |  2 +-
 tru.go     | 18 ++++++++++++++----
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/channel.go b/channel.go
index c27e942..434fed4 100644
--- a/channel.go
+++ b/channel.go
@@ -165,7 +165,7 @@ func (ch *Channel) destroy(msg string) {
 // used by packets listener which can't wait until readers executes
 func (ch *Channel) destroyed(msg string) {
 	if ch.remove(msg) {
-		ch.tru.readerCh.add(readerChData{call: ch.readDestroyed})
+		ch.tru.readerCh.add(readerChData{call: ch.readDestroyed, always: true})
 	}
 }
 
diff --git a/tru.go b/tru.go
index cf47d8d..79e84a5 100644
--- a/tru.go
+++ b/tru.go
@@ -231,6 +231,13 @@ func (tru *Tru) Close() {
 	log.Connect.Println("tru closed")
 }
 
+// isClosed return true if tru is already closed
+func (tru *Tru) isClosed() bool {
+	tru.mu.RLock()
+	defer tru.mu.RUnlock()
+	return tru.closed
+}
+
 // SetPunchCb set punch callback
 func (tru *Tru) SetPunchCb(punchcb PunchFunc) {
 	tru.mu.Lock()
@@ -482,9 +489,10 @@ type ConnectFunc func(*Channel, error)
 type PunchFunc func(addr net.Addr, data []byte)
 
 type readerChData struct {
-	ch   *Channel
-	pac  *Packet
-	call func() // Execute this callback instead of readers
+	ch     *Channel
+	pac    *Packet
+	call   func() // Execute this callback instead of readers
+	always bool   // Execute the callback when tru closed too
 }
 
 // readerProccess process received tru packets and execute users callbacks
@@ -497,7 +505,9 @@ func (tru *Tru) readerProccess() {
 
 		// Execute other callbacks
 		if r.call != nil {
-			r.call()
+			if r.always || !tru.isClosed() {
+				r.call()
+			}
 			continue
 		}
 		r.ch.pending.Add(-1)
-- 
2.43.0


From ffe19e7d058b1a68cb315ed785cbdeba5d8a3a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:12 +0000
Subject: [PATCH 22/27] fix: return bytes of a key unchanged with PARMRK and
 IUCLC set

---
 term/term_unix.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/term/term_unix.go b/term/term_unix.go
index 0f15bc0..c540633 100644
--- a/term/term_unix.go
+++ b/term/term_unix.go
@@ -36,8 +36,8 @@ func makeNonBlock(fd int) (*State, error) {
 
 	oldState := State{state{termios: *termios}}
 
-	termios.Iflag &^= unix.ISTRIP | unix.INLCR | unix.IGNCR | unix.ICRNL | unix.IXON
-	termios.Lflag &^= unix.ECHO | unix.ICANON | unix.ISIG
+	termios.Iflag &^= unix.PARMRK | unix.ISTRIP | unix.INLCR | unix.IGNCR | unix.ICRNL | unix.IXON
+	termios.Lflag &^= unix.ECHO | unix.ICANON | unix.ISIG | unix.IEXTEN
 	termios.Cc[unix.VMIN] = 1
 	termios.Cc[unix.VTIME] = 0
 	if err := unix.IoctlSetTermios(fd, ioctlWriteTermios, termios); err != nil {
-- 
2.43.0


From ab2bb46b7d1ca944fdfadcd39bf8e67e58de6664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:12 +0000
Subject: [PATCH 23/27] fix: release common node once if a dialed connection
 fails

---
 tru_net.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tru_net.go b/tru_net.go
index 5aafba7..8525e65 100644
--- a/tru_net.go
+++ b/tru_net.go
@@ -85,7 +85,10 @@ func Dial(network, address string) (conn net.Conn, err error) {
 	c := newConn(releaseTruCommon)
 	ch, err := tru.Connect(address, c.reader)
 	if err != nil {
-		releaseTruCommon()
+		// The reader has released it if the channel was created and destroyed
+		if c.close(false) {
+			releaseTruCommon()
+		}
 		return
 	}
 	c.setChannel(ch)
-- 
2.43.0


From ebee17a2d14f1b86505ecc226d67085df56e9574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:41 +0000
Subject: [PATCH 24/27] fix: skip late answers of connections the peer has
 given up

---
 connect.go | 12 ++++++++++++
 tru.go     |  4 ++++
 2 files changed, 16 insertions(+)

diff --git a/connect.go b/connect.go
index 9a3f22d..f2f7c8a 100644
--- a/connect.go
+++ b/connect.go
@@ -322,6 +322,18 @@ func (c *connect) accepted(addr, uuid string) (cross string, drop *Channel, ok b
 	return ad.cross, drop, true
 }
 
+// abandoned mark incoming connections from the address as given up by the peer,
+// their late answers should be skipped
+func (c *connect) abandoned(addr string) {
+	c.m.Lock()
+	defer c.m.Unlock()
+	for _, ad := range c.accepts {
+		if ad.addr == addr {
+			ad.accepted = true
+		}
+	}
+}
+
 // serve process connect packets
 func (c *connect) serve(tru *Tru, addr net.Addr, pac *Packet) (err error) {
 	switch pac.Status() {
diff --git a/tru.go b/tru.go
index 79e84a5..bfe1529 100644
--- a/tru.go
+++ b/tru.go
@@ -401,6 +401,10 @@ func (tru *Tru) serve(n int, addr net.Addr, data []byte) {
 	// previous channel of this peers
 	default:
 		if !channelExists || !ch.connected.Load() {
+			// The peer has given up its connection which is not accepted yet
+			if pac.Status() == statusDisconnect {
+				tru.connect.abandoned(addr.String())
+			}
 			return
 		}
 	}
-- 
2.43.0


From 6144c31285996b52ed1fb783199082e7861b239d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:06 +0000
Subject: [PATCH 25/27] fix: send connect done packet before first message of
 replaced connection

---
 connect.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/connect.go b/connect.go
index f2f7c8a..9bac4fc 100644
--- a/connect.go
+++ b/connect.go
@@ -497,13 +497,16 @@ func (c *connect) serve(tru *Tru, addr net.Addr, pac *Packet) (err error) {
 		if err != nil {
 			return
 		}
-		if cross != "" {
-			c.done(cross, ch)
-		}
 
 		// Create packet and send it to client
 		err = tru.writeToConnect(statusConnectDone, data, addr)
 
+		// Finish replaced outgoing connection. Its first message should go after
+		// the done packet
+		if cross != "" {
+			c.done(cross, ch)
+		}
+
 		// Channel connect to server callback
 		if tru.connectcb != nil {
 			tru.readerCh.add(readerChData{call: func() { tru.connectcb(ch, nil) }})
-- 
2.43.0


From b838e82a1bc0a1fb89cfdddd34b52ee97fd77efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:53 +0000
Subject: [PATCH 26/27] fix: send handshake packets before other packets of new
 channel

---
 channel.go | 32 +++++++++++++++++++++++++-------
 connect.go | 27 +++++++++++++++++----------
 2 files changed, 42 insertions(+), 17 deletions(-)

diff --git a/channel.go b/channel.go
index 434fed4..f93eb1d 100644
--- a/channel.go
+++ b/channel.go
@@ -39,8 +39,10 @@ var ErrChannelDestroyed = errors.New("channel destroyed")
 var ErrChannelAlreadyDestroyed = errors.New("channel already destroyed")
 
 // newChannel create new tru channel by address with session key and reader. The
-// existing channel with this address will be destroyed
-func (tru *Tru) newChannel(addr net.Addr, serverMode bool, key []byte, reader ReaderFunc) (ch *Channel, err error) {
+// existing channel with this address will be destroyed. The handshake function
+// sends packet which goes between packets of the existing and the new channel
+func (tru *Tru) newChannel(addr net.Addr, serverMode bool, key []byte, reader ReaderFunc,
+	handshake func(ch *Channel)) (ch *Channel, err error) {
 
 	msg := fmt.Sprint("new channel ", addr.String())
 	log.Connect.Println(msg)
@@ -83,12 +85,18 @@ func (tru *Tru) newChannel(addr net.Addr, serverMode bool, key []byte, reader Re
 		},
 	)
 
+	// Client reconnected, destroy its previous channel. The new channel can be
+	// used by others after the unlock
 	old := tru.channels[addr.String()]
+	reconnected := old != nil && old.stat.destroy(nil)
 	tru.channels[addr.String()] = ch
+	handshake(ch)
 	tru.mu.Unlock()
 
-	// Client reconnected, destroy its previous channel
-	old.destroyed(fmt.Sprint("channel reconnect, destroy ", addr.String()))
+	if reconnected {
+		old.removed(fmt.Sprint("channel reconnect, destroy ", addr.String()))
+		old.queueDestroyed()
+	}
 
 	return
 }
@@ -165,10 +173,15 @@ func (ch *Channel) destroy(msg string) {
 // used by packets listener which can't wait until readers executes
 func (ch *Channel) destroyed(msg string) {
 	if ch.remove(msg) {
-		ch.tru.readerCh.add(readerChData{call: ch.readDestroyed, always: true})
+		ch.queueDestroyed()
 	}
 }
 
+// queueDestroyed send channel destroyed error to readers queue
+func (ch *Channel) queueDestroyed() {
+	ch.tru.readerCh.add(readerChData{call: ch.readDestroyed, always: true})
+}
+
 // readDestroyed send channel destroyed error to readers
 func (ch *Channel) readDestroyed() {
 	if reader := ch.getReader(); reader != nil {
@@ -197,13 +210,18 @@ func (ch *Channel) remove(msg string, before ...func()) bool {
 	if !destroyed {
 		return false
 	}
+	ch.removed(msg)
+
+	return true
+}
+
+// removed finish remove of channel
+func (ch *Channel) removed(msg string) {
 	ch.sendQueue.destroy()
 
 	// Log messages
 	log.Connect.Println(msg)
 	ch.tru.statMsgs.add(msg)
-
-	return true
 }
 
 // Close tru channel
diff --git a/connect.go b/connect.go
index 9bac4fc..783dbc6 100644
--- a/connect.go
+++ b/connect.go
@@ -434,19 +434,23 @@ func (c *connect) serve(tru *Tru, addr net.Addr, pac *Packet) (err error) {
 			return
 		}
 
-		// Create new tru channel
+		// Create new tru channel. Create packet and send it to server
 		var ch *Channel
-		ch, err = tru.newChannel(addr, false, key, cd.reader)
+		var connected bool
+		var errWrite error
+		ch, err = tru.newChannel(addr, false, key, cd.reader, func(ch *Channel) {
+			if connected = c.setChannel(cd, ch); connected {
+				errWrite = tru.writeToConnect(statusConnectClientAnswer, data, addr)
+			}
+		})
 		if err != nil {
 			return
 		}
-		if !c.setChannel(cd, ch) {
+		if !connected {
 			ch.remove(fmt.Sprint("channel not connected, destroy ", addr.String()))
 			return
 		}
-
-		// Create packet and send it to server
-		err = tru.writeToConnect(statusConnectClientAnswer, data, addr)
+		err = errWrite
 
 	// Got by server. Client answer to server with statusConnectClientAnswer packet with
 	// current session key
@@ -492,14 +496,17 @@ func (c *connect) serve(tru *Tru, addr net.Addr, pac *Packet) (err error) {
 			return
 		}
 		drop.remove(fmt.Sprint("channel replaced, destroy ", addr.String()))
+
+		// Create new tru channel. Create packet and send it to client
 		var ch *Channel
-		ch, err = tru.newChannel(addr, true, key, nil)
+		var errWrite error
+		ch, err = tru.newChannel(addr, true, key, nil, func(*Channel) {
+			errWrite = tru.writeToConnect(statusConnectDone, data, addr)
+		})
 		if err != nil {
 			return
 		}
-
-		// Create packet and send it to client
-		err = tru.writeToConnect(statusConnectDone, data, addr)
+		err = errWrite
 
 		// Finish replaced outgoing connection. Its first message should go after
 		// the done packet
-- 
2.43.0


From 0b8db35534d7abda203d4ff705f695187eb73212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:58 +0000
Subject: [PATCH 27/27] fix: tell readers of channels which end while the node
 is being closed

---
 channel.go      | 5 ++++-
 reader_queue.go | 8 ++++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/channel.go b/channel.go
index f93eb1d..6f8b8ab 100644
--- a/channel.go
+++ b/channel.go
@@ -179,7 +179,10 @@ func (ch *Channel) destroyed(msg string) {
 
 // queueDestroyed send channel destroyed error to readers queue
 func (ch *Channel) queueDestroyed() {
-	ch.tru.readerCh.add(readerChData{call: ch.readDestroyed, always: true})
+	if !ch.tru.readerCh.add(readerChData{call: ch.readDestroyed, always: true}) {
+		// Tru closed, the queue may not be processed anymore
+		go ch.readDestroyed()
+	}
 }
 
 // readDestroyed send channel destroyed error to readers
diff --git a/reader_queue.go b/reader_queue.go
index 6bd66ed..cd64435 100644
--- a/reader_queue.go
+++ b/reader_queue.go
@@ -27,13 +27,17 @@ func (q *readerQueue) init() {
 	q.cond = sync.NewCond(&q.Mutex)
 }
 
-// add event to the queue
-func (q *readerQueue) add(event readerChData) {
+// add event to the queue, return false if the queue is closed
+func (q *readerQueue) add(event readerChData) bool {
 	q.Lock()
 	defer q.Unlock()
 
+	if q.closed {
+		return false
+	}
 	q.events = append(q.events, event)
 	q.cond.Signal()
+	return true
 }
 
 // get waits for and returns next event, return false if queue closed and empty
-- 
2.43.0

