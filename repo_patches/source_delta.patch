From 73ffc28df79475ff152c7c3b007b9762851353e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:36 +0000
Subject: [PATCH 01/37] fix: write the payload length of empty control frames

---
 conn_write.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conn_write.go b/conn_write.go
index 4f94f19..0f2f63e 100755
--- a/conn_write.go
+++ b/conn_write.go
@@ -315,6 +315,7 @@ func (cw *ControlWriter) writeControl(opcode byte, n int, isMasked bool) error {
 	// write header and payload
 	cw.buf = cw.buf[:2]
 	cw.buf[0] = 0x80 + opcode
+	cw.buf[1] = byte(n)
 
 	if isMasked {
 		b, err := cw.conn.nRead(4)
@@ -328,7 +329,6 @@ func (cw *ControlWriter) writeControl(opcode byte, n int, isMasked bool) error {
 		if err != nil {
 			return ErrConnClosed
 		}
-		cw.buf[1] = byte(n)
 
 		cw.mask(payload)
 		cw.buf = append(cw.buf, payload...)
-- 
2.43.0


From 5c233b74bfe3e151d7f8e0e184e41f148c697f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:06 +0000
Subject: [PATCH 02/37] fix: give every control frame write its own timeout
 timer

---
 conn.go       |  1 -
 conn_write.go | 12 ++++--------
 2 files changed, 4 insertions(+), 9 deletions(-)

diff --git a/conn.go b/conn.go
index e8a55ef..694c714 100755
--- a/conn.go
+++ b/conn.go
@@ -124,7 +124,6 @@ type ControlWriter struct {
 	maskKey [4]byte
 	err     chan error
 	lock    *mu
-	t       *time.Timer
 }
 
 func (conn *Conn) newControlWriter() *ControlWriter {
diff --git a/conn_write.go b/conn_write.go
index 0f2f63e..aef682f 100755
--- a/conn_write.go
+++ b/conn_write.go
@@ -294,14 +294,10 @@ func (conn *Conn) pong(n int, isMasked bool) error {
 // All errors must be considered fatal, and the connection must be closed manually.
 // this function doesnt close the connection.
 func (cw *ControlWriter) writeControl(opcode byte, n int, isMasked bool) error {
-	if cw.t == nil {
-		cw.t = time.NewTimer(cw.conn.upgrader.WriteWait)
-	} else {
-		cw.t.Reset(cw.conn.upgrader.WriteWait)
-	}
-	defer cw.t.Stop()
+	t := time.NewTimer(cw.conn.upgrader.WriteWait)
+	defer t.Stop()
 
-	err := cw.lock.lockTimer(cw.t)
+	err := cw.lock.lockTimer(t)
 	if err != nil {
 		return err
 	}
@@ -334,7 +330,7 @@ func (cw *ControlWriter) writeControl(opcode byte, n int, isMasked bool) error {
 		cw.buf = append(cw.buf, payload...)
 	}
 
-	if err := cw.conn.writeLock.lockTimer(cw.t); err != nil {
+	if err := cw.conn.writeLock.lockTimer(t); err != nil {
 		return err
 	}
 	defer cw.conn.writeLock.unLock()
-- 
2.43.0


From 9cf64f6189af39e5136b0753aac5dfc5bf7f77b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:38 +0000
Subject: [PATCH 03/37] fix: do not hold the control writer while reading a
 ping payload

---
 conn_write.go | 36 +++++++++++++++++++-----------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/conn_write.go b/conn_write.go
index aef682f..684681d 100755
--- a/conn_write.go
+++ b/conn_write.go
@@ -294,6 +294,24 @@ func (conn *Conn) pong(n int, isMasked bool) error {
 // All errors must be considered fatal, and the connection must be closed manually.
 // this function doesnt close the connection.
 func (cw *ControlWriter) writeControl(opcode byte, n int, isMasked bool) error {
+	// read the payload before locking, a client that sends it slowly must not block other control frames.
+	var payload []byte
+	if isMasked {
+		b, err := cw.conn.nRead(4)
+		if err != nil {
+			return ErrInternalServer
+		}
+		copy(cw.maskKey[:], b)
+	}
+	if n > 0 && n <= MaxControlFramePayload {
+		b, err := cw.conn.nRead(n)
+		if err != nil {
+			return ErrConnClosed
+		}
+		cw.mask(b)
+		payload = b
+	}
+
 	t := time.NewTimer(cw.conn.upgrader.WriteWait)
 	defer t.Stop()
 
@@ -312,23 +330,7 @@ func (cw *ControlWriter) writeControl(opcode byte, n int, isMasked bool) error {
 	cw.buf = cw.buf[:2]
 	cw.buf[0] = 0x80 + opcode
 	cw.buf[1] = byte(n)
-
-	if isMasked {
-		b, err := cw.conn.nRead(4)
-		if err != nil {
-			return ErrInternalServer
-		}
-		copy(cw.maskKey[:], b)
-	}
-	if n > 0 && n <= MaxControlFramePayload {
-		payload, err := cw.conn.nRead(n)
-		if err != nil {
-			return ErrConnClosed
-		}
-
-		cw.mask(payload)
-		cw.buf = append(cw.buf, payload...)
-	}
+	cw.buf = append(cw.buf, payload...)
 
 	if err := cw.conn.writeLock.lockTimer(t); err != nil {
 		return err
-- 
2.43.0


From aed0b1a6b117f4d3e8bda1b39837288dd6d743e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:40 +0000
Subject: [PATCH 04/37] fix: mark the ping as sent before writing it and close
 the connection when it fails

---
 conn_write.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/conn_write.go b/conn_write.go
index 684681d..26f2b87 100755
--- a/conn_write.go
+++ b/conn_write.go
@@ -264,16 +264,17 @@ func (conn *Conn) SendJSON(ctx context.Context, v any) error {
 // return a non-nil error snapws.ErrPingAlreadySent. So, if you wish to send a ping manually,
 // you should keep trying until the error is not snapws.ErrPingAlreadySent.
 func (conn *Conn) Ping() error {
-	if conn.pingSent.Load() {
+	// set before writing, the pong might arrive before the write returns.
+	if !conn.pingSent.CompareAndSwap(false, true) {
 		return ErrPingAlreadySent
 	}
 
 	err := conn.controlWriter.writeControl(OpcodePing, 0, false)
 	if err != nil {
+		conn.CloseWithCode(ClosePolicyViolation, err.Error())
 		return fatal(err)
 	}
 
-	conn.pingSent.Store(true)
 	return nil
 }
 
-- 
2.43.0


From 956bddb79a545ddcb864da07029ed8a2a5669dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:42 +0000
Subject: [PATCH 05/37] fix: end the ping loop when the connection closes

---
 conn.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/conn.go b/conn.go
index 694c714..58a7aaf 100755
--- a/conn.go
+++ b/conn.go
@@ -57,6 +57,7 @@ func (u *Upgrader) newConn(c net.Conn, subProtocol string, br *bufio.Reader, wb
 		SubProtocol: subProtocol,
 		done:        make(chan struct{}),
 		pingPayload: make([]byte, 0, MaxControlFramePayload),
+		ticker:      time.NewTicker(u.PingEvery),
 	}
 	conn.writeLock = newMu(conn)
 
@@ -141,10 +142,12 @@ func (conn *Conn) newControlWriter() *ControlWriter {
 // Ping the client every "PingEvery" provided from the manager.
 // If pinging fails the connection closes.
 func (conn *Conn) pingLoop() {
-	if conn.ticker == nil {
-		conn.ticker = time.NewTicker(conn.upgrader.PingEvery)
-	}
-	for range conn.ticker.C {
+	for {
+		select {
+		case <-conn.done:
+			return
+		case <-conn.ticker.C:
+		}
 		if err := conn.Ping(); err != nil && err != ErrPingAlreadySent {
 			conn.CloseWithCode(ClosePolicyViolation, err.Error())
 			return
@@ -196,9 +199,7 @@ func (conn *Conn) handlePong(n int, isMasked bool) error {
 // CloseWithCode closes the connection with the given code and reason.
 func (conn *Conn) CloseWithCode(code uint16, reason string) {
 	conn.closeOnce.Do(func() {
-		if conn.ticker != nil {
-			conn.ticker.Stop()
-		}
+		conn.ticker.Stop()
 
 		// close the current writer (if exists) and put the buffer back to the pool (if exists).
 		conn.writer.Close()
-- 
2.43.0


From 3a2c40eb36b2f4f5eae9ba7a73c186b09a5e3a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:15 +0000
Subject: [PATCH 06/37] fix: release the write lock before closing after a
 failed write

---
 broadcast.go  | 16 ++++++++--------
 conn_write.go | 18 +++++++++++-------
 2 files changed, 19 insertions(+), 15 deletions(-)

diff --git a/broadcast.go b/broadcast.go
index 6d2c35c..1e72f08 100755
--- a/broadcast.go
+++ b/broadcast.go
@@ -25,16 +25,16 @@ func (m *frame) writeToConn(conn *Conn) error {
 	if err := conn.writeLock.lockCtx(m.ctx); err != nil {
 		return err
 	}
-	defer conn.writeLock.unLock()
 
-	// set deadline
-	if err := conn.raw.SetWriteDeadline(time.Now().Add(conn.upgrader.WriteWait)); err != nil {
-		conn.CloseWithCode(CloseInternalServerErr, ErrInternalServer.Error())
-		return fatal(err)
+	// set deadline and send frame
+	err := conn.raw.SetWriteDeadline(time.Now().Add(conn.upgrader.WriteWait))
+	if err == nil {
+		err = conn.sendFrame(m.buf)
 	}
-
-	// send frame
-	if err := conn.sendFrame(m.buf); err != nil {
+	// unlock before closing, because closing needs the lock to write the close frame.
+	conn.writeLock.unLock()
+	if err != nil {
+		conn.CloseWithCode(CloseInternalServerErr, ErrInternalServer.Error())
 		return fatal(err)
 	}
 
diff --git a/conn_write.go b/conn_write.go
index 26f2b87..f52f1b7 100755
--- a/conn_write.go
+++ b/conn_write.go
@@ -147,14 +147,13 @@ func (w *ConnWriter) flush(FIN bool) error {
 	if err != nil {
 		return err
 	}
-	defer w.conn.writeLock.unLock()
 
-	if err = w.conn.raw.SetWriteDeadline(time.Now().Add(w.conn.upgrader.WriteWait)); err != nil {
-		w.conn.CloseWithCode(CloseInternalServerErr, ErrInternalServer.Error())
-		return fatal(err)
+	err = w.conn.raw.SetWriteDeadline(time.Now().Add(w.conn.upgrader.WriteWait))
+	if err == nil {
+		err = w.conn.sendFrame(w.buf[w.start:w.used])
 	}
-
-	err = w.conn.sendFrame(w.buf[w.start:w.used])
+	// unlock before closing, because closing needs the lock to write the close frame.
+	w.conn.writeLock.unLock()
 	if err != nil {
 		w.conn.CloseWithCode(CloseInternalServerErr, ErrInternalServer.Error())
 		return fatal(err)
@@ -181,9 +180,13 @@ func (w *ConnWriter) Close() error {
 // sendFrame writes a prepared frame to the underlying connection.
 // This function is for internal library use.
 // All non-nil errors returned are fatal.
-// The fucntion doesnt close the connection on error.
+// The fucntion doesnt close the connection on error, it only closes the underlying connection
+// because nothing can be sent after a frame that was cut.
 func (conn *Conn) sendFrame(buf []byte) error {
 	_, err := conn.raw.Write(buf)
+	if err != nil {
+		conn.raw.Close()
+	}
 
 	return err
 }
@@ -355,6 +358,7 @@ func (cw *ControlWriter) writeClose(closeCode uint16, reason string) {
 	// set deadline
 	err := cw.conn.raw.SetWriteDeadline(time.Now().Add(cw.conn.upgrader.WriteWait))
 	if err != nil {
+		cw.conn.raw.Close()
 		return
 	}
 
-- 
2.43.0


From 800e9797915096e9523cd38462ca9db403541e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:42 +0000
Subject: [PATCH 07/37] fix: give every message its own writer and never pool a
 buffer in use

---
 conn.go       | 12 ++++++------
 conn_utils.go |  9 +++++++++
 conn_write.go |  6 ++++--
 3 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/conn.go b/conn.go
index 58a7aaf..5ccaa80 100755
--- a/conn.go
+++ b/conn.go
@@ -201,15 +201,15 @@ func (conn *Conn) CloseWithCode(code uint16, reason string) {
 	conn.closeOnce.Do(func() {
 		conn.ticker.Stop()
 
-		// close the current writer (if exists) and put the buffer back to the pool (if exists).
-		conn.writer.Close()
-		if conn.writer.pb != nil && !conn.upgrader.DisableWriteBuffersPooling {
-			conn.upgrader.writePool.Put(conn.writer.pb)
-		}
-
 		// close the done channel inditicating that the connection is closed
 		close(conn.done)
 
+		// put the buffer back to the pool (if exists), unless a writer is still using it.
+		// the lock isn't released so the buffer can't be used by this connection again.
+		if conn.writer.lock.tryLock() && conn.writer.pb != nil {
+			conn.upgrader.writePool.Put(conn.writer.pb)
+		}
+
 		// writer a close frame.
 		conn.controlWriter.writeClose(code, reason)
 
diff --git a/conn_utils.go b/conn_utils.go
index 66cee43..b520c94 100755
--- a/conn_utils.go
+++ b/conn_utils.go
@@ -52,6 +52,15 @@ func (m *mu) forceLock() {
 	m.ch <- struct{}{}
 }
 
+func (m *mu) tryLock() bool {
+	select {
+	case m.ch <- struct{}{}:
+		return true
+	default:
+		return false
+	}
+}
+
 func (m *mu) unLock() {
 	<-m.ch
 }
diff --git a/conn_write.go b/conn_write.go
index f52f1b7..7c68422 100755
--- a/conn_write.go
+++ b/conn_write.go
@@ -76,9 +76,11 @@ func (conn *Conn) NextWriter(ctx context.Context, msgType uint8) (*ConnWriter, e
 		return nil, err
 	}
 
-	conn.writer.reset(ctx, msgType)
+	// every message gets its own handle, so a finished one can't affect the next message.
+	w := *conn.writer
+	w.reset(ctx, msgType)
 
-	return conn.writer, nil
+	return &w, nil
 }
 
 // Write appends bytes to the writer buffer and flushes if full.
-- 
2.43.0


From 99ed21fa1a5ccaa8ff7c1dbb8987694a8f8f1790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:52 +0000
Subject: [PATCH 08/37] fix: abort a message that failed instead of keeping or
 corrupting the stream

---
 conn_write.go | 48 +++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 39 insertions(+), 9 deletions(-)

diff --git a/conn_write.go b/conn_write.go
index 7c68422..9466f40 100755
--- a/conn_write.go
+++ b/conn_write.go
@@ -22,8 +22,10 @@ type ConnWriter struct {
 	opcode     uint8
 	closed     bool
 	flushCount int
-	lock       *mu
-	ctx        context.Context
+	// set when a flush fails and the data hasn't been sent.
+	failed error
+	lock   *mu
+	ctx    context.Context
 }
 
 // newWriter is a constructor for conn.writer, only to be used once.
@@ -55,6 +57,7 @@ func (w *ConnWriter) reset(ctx context.Context, opcode uint8) {
 	w.opcode = opcode
 	w.closed = false
 	w.flushCount = 0
+	w.failed = nil
 	w.ctx = ctx
 }
 
@@ -147,6 +150,8 @@ func (w *ConnWriter) flush(FIN bool) error {
 
 	err = w.conn.writeLock.lockCtx(w.ctx)
 	if err != nil {
+		w.start = MaxHeaderSize
+		w.failed = err
 		return err
 	}
 
@@ -161,6 +166,7 @@ func (w *ConnWriter) flush(FIN bool) error {
 		return fatal(err)
 	}
 
+	w.failed = nil
 	w.flushCount++
 	w.used = MaxHeaderSize
 	w.start = MaxHeaderSize
@@ -169,16 +175,40 @@ func (w *ConnWriter) flush(FIN bool) error {
 }
 
 // Close flushes the final frame and releases the writer lock.
+// If a flush failed and wasn't retried successfully, the message is aborted and the error is returned.
 func (w *ConnWriter) Close() error {
-	if !w.closed {
-		defer w.lock.tryUnlock()
-		defer func() { w.closed = true }()
-		err := w.flush(true)
-		return err
+	if w.closed {
+		return nil
+	}
+	if w.failed != nil {
+		return w.abort(w.failed)
+	}
+	if err := w.flush(true); err != nil {
+		return w.abort(err)
 	}
+
+	w.closed = true
+	w.lock.tryUnlock()
 	return nil
 }
 
+// abort gives up the current message and releases the writer lock.
+// If a part of the message has been sent, there is no way to end the message correctly,
+// so the connection gets closed and the returned error is fatal.
+func (w *ConnWriter) abort(err error) error {
+	if w.closed {
+		return err
+	}
+	if w.flushCount > 0 && !IsFatalErr(err) {
+		w.conn.CloseWithCode(CloseInternalServerErr, ErrInternalServer.Error())
+		err = fatal(err)
+	}
+
+	w.closed = true
+	w.lock.tryUnlock()
+	return err
+}
+
 // sendFrame writes a prepared frame to the underlying connection.
 // This function is for internal library use.
 // All non-nil errors returned are fatal.
@@ -210,7 +240,7 @@ func (conn *Conn) SendMessage(ctx context.Context, opcode uint8, b []byte) error
 
 	_, err = w.Write(b)
 	if err != nil {
-		return err
+		return w.abort(err)
 	}
 
 	return w.Close()
@@ -256,7 +286,7 @@ func (conn *Conn) SendJSON(ctx context.Context, v any) error {
 
 	err = json.NewEncoder(w).Encode(v)
 	if err != nil {
-		return err
+		return w.abort(err)
 	}
 
 	return w.Close()
-- 
2.43.0


From cf4d094d15cf33dc414d8e6c32870ca77ec76686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:54 +0000
Subject: [PATCH 09/37] fix: do not send a broadcast in the middle of a
 fragmented message

---
 broadcast.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/broadcast.go b/broadcast.go
index 1e72f08..00539e1 100755
--- a/broadcast.go
+++ b/broadcast.go
@@ -21,6 +21,12 @@ type frame struct {
 // Here we will send the frame directly (in one syscall) without copying to user buffer (without facing the possibility of fragmenting it).
 // This will save us syscalls and copies.
 func (m *frame) writeToConn(conn *Conn) error {
+	// Acquire the data writer, a data frame can't be sent in the middle of another message.
+	if err := conn.writer.lock.lockCtx(m.ctx); err != nil {
+		return err
+	}
+	defer conn.writer.lock.unLock()
+
 	// Acquire write lock
 	if err := conn.writeLock.lockCtx(m.ctx); err != nil {
 		return err
-- 
2.43.0


From 9c3424415914cac7e8ae82a59bb43c07331f6fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:56 +0000
Subject: [PATCH 10/37] fix: stop waiting for the queue of a closed connection

---
 broadcast.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/broadcast.go b/broadcast.go
index 00539e1..96caac7 100755
--- a/broadcast.go
+++ b/broadcast.go
@@ -120,6 +120,7 @@ func (u *Upgrader) broadcast(ctx context.Context, conns []*Conn, opcode uint8, d
 				select {
 				case <-ctx.Done():
 					return n, ctx.Err()
+				case <-conn.done:
 				case conn.broadcastQueue <- m:
 					n++
 				}
@@ -175,6 +176,7 @@ func (u *Upgrader) batchBroadcast(ctx context.Context, conns []*Conn, data []byt
 					return n, u.Flusher.ctx.Err()
 				case <-ctx.Done():
 					return n, ctx.Err()
+				case <-conn.done:
 				case conn.broadcastQueue <- m:
 					n++
 				}
-- 
2.43.0


From 6752966890698dd66c75a2677e69ffc942c1716d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:58 +0000
Subject: [PATCH 11/37] fix: accept a nil context in batch broadcasts

---
 broadcast.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/broadcast.go b/broadcast.go
index 96caac7..e750840 100755
--- a/broadcast.go
+++ b/broadcast.go
@@ -149,6 +149,10 @@ func (u *Upgrader) batchBroadcast(ctx context.Context, conns []*Conn, data []byt
 		return 0, ErrBatchingUninitialized
 	}
 
+	if ctx == nil {
+		ctx = context.Background()
+	}
+
 	m := &batchMessage{buf: data}
 
 	for _, conn := range conns {
-- 
2.43.0


From c3b33c18e618b8928dcc6368f00da4461e369c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:00 +0000
Subject: [PATCH 12/37] fix: never queue a batch broadcast after batching was
 shut down

---
 broadcast.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/broadcast.go b/broadcast.go
index e750840..62d9907 100755
--- a/broadcast.go
+++ b/broadcast.go
@@ -156,6 +156,15 @@ func (u *Upgrader) batchBroadcast(ctx context.Context, conns []*Conn, data []byt
 	m := &batchMessage{buf: data}
 
 	for _, conn := range conns {
+		// checked alone first, because the queue might be ready too.
+		select {
+		case <-u.Flusher.closed:
+			return n, ErrFlusherClosed
+		case <-u.Flusher.ctx.Done():
+			return n, u.Flusher.ctx.Err()
+		default:
+		}
+
 		select {
 		case <-u.Flusher.closed:
 			return n, ErrFlusherClosed
-- 
2.43.0


From 3f18df779707c61d714cd3752dfdd00ef5556698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:26 +0000
Subject: [PATCH 13/37] fix: enable broadcasting once and before the connection
 becomes a target

---
 conn.go          | 11 +++++------
 manager.go       |  4 +++-
 rooms_manager.go |  4 +++-
 3 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/conn.go b/conn.go
index 5ccaa80..f0fa2a9 100755
--- a/conn.go
+++ b/conn.go
@@ -44,6 +44,7 @@ type Conn struct {
 	writeLock     *mu
 	readBuf       *bufio.Reader
 
+	broadcastOnce  sync.Once
 	broadcastQueue chan message
 
 	batch *messageBatch
@@ -90,13 +91,11 @@ func (u *Upgrader) newConn(c net.Conn, subProtocol string, br *bufio.Reader, wb
 }
 
 func (conn *Conn) enableBroadcasting() {
-	if conn.broadcastQueue != nil {
-		return
-	}
+	conn.broadcastOnce.Do(func() {
+		conn.broadcastQueue = make(chan message, conn.upgrader.BroadcastChannelsSize)
 
-	conn.broadcastQueue = make(chan message, conn.upgrader.BroadcastChannelsSize)
-
-	go conn.broadcastListener()
+		go conn.broadcastListener()
+	})
 }
 
 // ManagedConn is a Conn that is tracked by a Manager.
diff --git a/manager.go b/manager.go
index b0706a2..46bf7ef 100755
--- a/manager.go
+++ b/manager.go
@@ -70,6 +70,9 @@ func (m *Manager[KeyType]) Connect(key KeyType, w http.ResponseWriter, r *http.R
 // If the key already exists, it will close the connection associated with the key,
 // and replace it with the new connection received by the fucntion.
 func (m *Manager[KeyType]) Register(key KeyType, conn *ManagedConn[KeyType]) {
+	// before adding it, because a broadcast may reach it as soon as its added.
+	conn.enableBroadcasting()
+
 	m.mu.Lock()
 	if conn, ok := m.conns[key]; ok {
 		conn.raw.Close()
@@ -77,7 +80,6 @@ func (m *Manager[KeyType]) Register(key KeyType, conn *ManagedConn[KeyType]) {
 	m.conns[key] = conn
 	m.mu.Unlock()
 
-	conn.enableBroadcasting()
 	if m.OnRegister != nil {
 		m.OnRegister(conn)
 	}
diff --git a/rooms_manager.go b/rooms_manager.go
index e7e01aa..e8b8123 100755
--- a/rooms_manager.go
+++ b/rooms_manager.go
@@ -228,6 +228,9 @@ func (r *Room[keyType]) Close() {
 // Thread-safe: Multiple goroutines can call this concurrently.
 // If the connection is already in the room, this is a no-op.
 func (r *Room[keyType]) Add(conn *Conn, args ...any) {
+	// before adding it, because a broadcast may reach it as soon as its added.
+	conn.enableBroadcasting()
+
 	r.mu.Lock()
 	r.conns[conn] = true
 	r.mu.Unlock()
@@ -239,7 +242,6 @@ func (r *Room[keyType]) Add(conn *Conn, args ...any) {
 	}
 	conn.onCloseMu.Unlock()
 
-	conn.enableBroadcasting()
 	// calling onJoin hook
 	if r.OnJoin != nil {
 		r.OnJoin(r, conn, args...)
-- 
2.43.0


From b3b8b235f987514c430e2f3a7c959a5e4e6a7594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:28 +0000
Subject: [PATCH 14/37] fix: set the batch before adding a connection to the
 flusher and remove it from the same flusher

---
 conn.go         | 6 +++---
 conn_batcher.go | 6 ++++--
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/conn.go b/conn.go
index f0fa2a9..aa3d310 100755
--- a/conn.go
+++ b/conn.go
@@ -82,7 +82,7 @@ func (u *Upgrader) newConn(c net.Conn, subProtocol string, br *bufio.Reader, wb
 	conn.controlWriter = conn.newControlWriter()
 
 	if u.Flusher != nil {
-		conn.batch = u.Flusher.newBatch(conn)
+		u.Flusher.newBatch(conn)
 	}
 
 	go conn.pingLoop()
@@ -228,8 +228,8 @@ func (conn *Conn) CloseWithCode(code uint16, reason string) {
 			conn.upgrader.Limiter.removeClient(conn)
 		}
 
-		if conn.upgrader.Flusher != nil {
-			conn.upgrader.Flusher.remove(conn)
+		if conn.batch != nil {
+			conn.batch.flusher.remove(conn)
 		}
 	})
 }
diff --git a/conn_batcher.go b/conn_batcher.go
index a1e99de..071fb36 100755
--- a/conn_batcher.go
+++ b/conn_batcher.go
@@ -16,12 +16,14 @@ type messageBatch struct {
 }
 
 func (f *batchFlusher) newBatch(conn *Conn) *messageBatch {
-	f.add(conn)
-	return &messageBatch{
+	// set before adding the conn, because it may be flushed as soon as its added.
+	conn.batch = &messageBatch{
 		messages: make([][]byte, 0),
 		conn:     conn,
 		flusher:  f,
 	}
+	f.add(conn)
+	return conn.batch
 }
 
 // Batch adds raw byte data to the current message batch.
-- 
2.43.0


From 8eb7a2f8df26b167a5d6ffc1307bb89de015d23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:56 +0000
Subject: [PATCH 15/37] fix: send batches in order, within their size, and none
 after the last flush

---
 conn_batcher.go | 53 +++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 42 insertions(+), 11 deletions(-)

diff --git a/conn_batcher.go b/conn_batcher.go
index 071fb36..ccc1d87 100755
--- a/conn_batcher.go
+++ b/conn_batcher.go
@@ -10,9 +10,12 @@ import (
 type messageBatch struct {
 	messages  [][]byte
 	totalSize int
-	mu        sync.Mutex
-	conn      *Conn
-	flusher   *batchFlusher
+	// batches waiting to be sent, and whether a goroutine is sending them.
+	pending [][][]byte
+	sending bool
+	mu      sync.Mutex
+	conn    *Conn
+	flusher *batchFlusher
 }
 
 func (f *batchFlusher) newBatch(conn *Conn) *messageBatch {
@@ -54,15 +57,19 @@ func (conn *Conn) Batch(data []byte) error {
 	}
 
 	conn.batch.mu.Lock()
+	defer conn.batch.mu.Unlock()
+
+	// the last flush happens after the flusher is closed, nothing can be added after it.
+	if conn.batch.flusher.IsClosed() {
+		return ErrFlusherClosed
+	}
+
 	if conn.batch.totalSize+len(data) > conn.upgrader.MaxBatchSize {
-		conn.batch.mu.Unlock()
-		conn.batch.flush()
-		conn.batch.mu.Lock()
+		conn.batch.flushLocked()
 	}
 
 	conn.batch.messages = append(conn.batch.messages, data)
 	conn.batch.totalSize += len(data)
-	conn.batch.mu.Unlock()
 
 	return nil
 }
@@ -90,16 +97,40 @@ func (conn *Conn) BatchJSON(v interface{}) error {
 // if the messages slice isn't empty, it copies it, allocates a new one, and sends it.
 func (b *messageBatch) flush() {
 	b.mu.Lock()
+	defer b.mu.Unlock()
+	b.flushLocked()
+}
+
+// same as flush, but b.mu must be locked by the caller.
+func (b *messageBatch) flushLocked() {
 	if len(b.messages) == 0 {
-		b.mu.Unlock()
 		return
 	}
-	c := b.messages
+	b.pending = append(b.pending, b.messages)
 	b.messages = make([][]byte, 0)
 	b.totalSize = 0
-	b.mu.Unlock()
 
-	go b.send(c)
+	if !b.sending {
+		b.sending = true
+		go b.sendPending()
+	}
+}
+
+// sends the pending batches one after another, to keep their order.
+func (b *messageBatch) sendPending() {
+	for {
+		b.mu.Lock()
+		if len(b.pending) == 0 {
+			b.sending = false
+			b.mu.Unlock()
+			return
+		}
+		c := b.pending[0]
+		b.pending = b.pending[1:]
+		b.mu.Unlock()
+
+		b.send(c)
+	}
 }
 
 // receives the connections slice and the messages and calls the appropriate send function.
-- 
2.43.0


From f45de4867a7fb3f734f49610dfb207fb17b32b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:11 +0000
Subject: [PATCH 16/37] fix: run the close hooks outside of closeOnce and locks

---
 conn.go | 40 +++++++++++++++++++++++-----------------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/conn.go b/conn.go
index aa3d310..0ff6b62 100755
--- a/conn.go
+++ b/conn.go
@@ -197,7 +197,9 @@ func (conn *Conn) handlePong(n int, isMasked bool) error {
 
 // CloseWithCode closes the connection with the given code and reason.
 func (conn *Conn) CloseWithCode(code uint16, reason string) {
+	first := false
 	conn.closeOnce.Do(func() {
+		first = true
 		conn.ticker.Stop()
 
 		// close the done channel inditicating that the connection is closed
@@ -211,27 +213,31 @@ func (conn *Conn) CloseWithCode(code uint16, reason string) {
 
 		// writer a close frame.
 		conn.controlWriter.writeClose(code, reason)
+	})
+	if !first {
+		return
+	}
 
-		// run hooks.
-		if conn.upgrader.OnDisconnect != nil {
-			conn.upgrader.OnDisconnect(conn)
-		}
+	// run hooks. outside of closeOnce and without holding any lock, because they may close this connection again.
+	if conn.upgrader.OnDisconnect != nil {
+		conn.upgrader.OnDisconnect(conn)
+	}
 
-		conn.onCloseMu.Lock()
-		if conn.onClose != nil {
-			conn.onClose()
-		}
-		conn.onCloseMu.Unlock()
+	conn.onCloseMu.Lock()
+	onClose := conn.onClose
+	conn.onCloseMu.Unlock()
+	if onClose != nil {
+		onClose()
+	}
 
-		// remove from rate limiter if exists
-		if conn.upgrader.Limiter != nil {
-			conn.upgrader.Limiter.removeClient(conn)
-		}
+	// remove from rate limiter if exists
+	if conn.upgrader.Limiter != nil {
+		conn.upgrader.Limiter.removeClient(conn)
+	}
 
-		if conn.batch != nil {
-			conn.batch.flusher.remove(conn)
-		}
-	})
+	if conn.batch != nil {
+		conn.batch.flusher.remove(conn)
+	}
 }
 
 // This function is called upon receiving a close frame from the client.
-- 
2.43.0


From b050172dea743f9fb66bd866bb323481bd90f5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:32 +0000
Subject: [PATCH 17/37] fix: track the manager and every room of a connection
 until it closes

---
 conn.go          | 33 +++++++++++++++++++++++++++------
 manager.go       | 23 +++++++++++++----------
 rooms_manager.go | 20 +++++++++++++-------
 3 files changed, 53 insertions(+), 23 deletions(-)

diff --git a/conn.go b/conn.go
index 0ff6b62..16e0d98 100755
--- a/conn.go
+++ b/conn.go
@@ -27,7 +27,10 @@ type Conn struct {
 	// would receive ok=false, indicating that the channel is closed => conn is closed.
 	done      chan struct{}
 	closeOnce sync.Once
-	onClose   func()
+	// callbacks of the manager and rooms the connection is in. one for each of them.
+	onClose map[any]func()
+	// set when the callbacks have been taken to run, none can be added after that.
+	onCloseTaken bool
 	// onCloseMu protects concurrent access to onClose callbacks.
 	// This prevents race conditions when connections move between rooms
 	// and multiple goroutines try to set/call onClose simultaneously.
@@ -108,12 +111,28 @@ type ManagedConn[KeyType comparable] struct {
 }
 
 func (m *Manager[KeyType]) newManagedConn(conn *Conn, key KeyType) *ManagedConn[KeyType] {
+	return &ManagedConn[KeyType]{Conn: conn, Key: key, Manager: m}
+}
+
+// addOnClose sets the callback the given owner (a manager's connection or a room) wants to run when the connection closes.
+// It returns false if its too late for that, because the connection has been closed.
+func (conn *Conn) addOnClose(owner any, f func()) bool {
 	conn.onCloseMu.Lock()
 	defer conn.onCloseMu.Unlock()
-	conn.onClose = func() {
-		m.unregister(key)
+	if conn.onCloseTaken {
+		return false
 	}
-	return &ManagedConn[KeyType]{Conn: conn, Key: key, Manager: m}
+	if conn.onClose == nil {
+		conn.onClose = make(map[any]func())
+	}
+	conn.onClose[owner] = f
+	return true
+}
+
+func (conn *Conn) removeOnClose(owner any) {
+	conn.onCloseMu.Lock()
+	defer conn.onCloseMu.Unlock()
+	delete(conn.onClose, owner)
 }
 
 // Used to write control frames.
@@ -225,9 +244,11 @@ func (conn *Conn) CloseWithCode(code uint16, reason string) {
 
 	conn.onCloseMu.Lock()
 	onClose := conn.onClose
+	conn.onClose = nil
+	conn.onCloseTaken = true
 	conn.onCloseMu.Unlock()
-	if onClose != nil {
-		onClose()
+	for _, f := range onClose {
+		f()
 	}
 
 	// remove from rate limiter if exists
diff --git a/manager.go b/manager.go
index 46bf7ef..97a2404 100755
--- a/manager.go
+++ b/manager.go
@@ -78,31 +78,34 @@ func (m *Manager[KeyType]) Register(key KeyType, conn *ManagedConn[KeyType]) {
 		conn.raw.Close()
 	}
 	m.conns[key] = conn
+	open := conn.addOnClose(conn, func() {
+		m.unregister(key, conn)
+	})
+	if !open {
+		delete(m.conns, key)
+	}
 	m.mu.Unlock()
 
 	if m.OnRegister != nil {
 		m.OnRegister(conn)
 	}
+	if !open {
+		m.unregister(key, conn)
+	}
 }
 
 // only to be called bt conn.Close(), dont use it manually.
-func (m *Manager[KeyType]) unregister(id KeyType) error {
+func (m *Manager[KeyType]) unregister(id KeyType, conn *ManagedConn[KeyType]) {
 	m.mu.Lock()
-
-	conn, ok := m.conns[id]
-	if !ok {
-		m.mu.Unlock()
-		return ErrConnNotFound
+	// the key may belong to a newer connection.
+	if m.conns[id] == conn {
+		delete(m.conns, id)
 	}
-
-	delete(m.conns, id)
 	m.mu.Unlock()
 
 	if m.OnUnregister != nil {
 		m.OnUnregister(conn)
 	}
-
-	return nil
 }
 
 // Receives a key, returns a pointer to the connection associated with the key.
diff --git a/rooms_manager.go b/rooms_manager.go
index e8b8123..6ee8eb9 100755
--- a/rooms_manager.go
+++ b/rooms_manager.go
@@ -232,15 +232,13 @@ func (r *Room[keyType]) Add(conn *Conn, args ...any) {
 	conn.enableBroadcasting()
 
 	r.mu.Lock()
-	r.conns[conn] = true
-	r.mu.Unlock()
-
 	// Set up automatic cleanup when connection closes
-	conn.onCloseMu.Lock()
-	conn.onClose = func() {
-		r.Remove(conn, args...)
+	if r.conns[conn] || !conn.addOnClose(r, func() { r.Remove(conn, args...) }) {
+		r.mu.Unlock()
+		return
 	}
-	conn.onCloseMu.Unlock()
+	r.conns[conn] = true
+	r.mu.Unlock()
 
 	// calling onJoin hook
 	if r.OnJoin != nil {
@@ -256,7 +254,12 @@ func (r *Room[keyType]) Add(conn *Conn, args ...any) {
 // Thread-safe: Multiple goroutines can call this concurrently.
 func (r *Room[keyType]) Remove(conn *Conn, args ...any) {
 	r.mu.Lock()
+	if !r.conns[conn] {
+		r.mu.Unlock()
+		return
+	}
 	delete(r.conns, conn)
+	conn.removeOnClose(r)
 	r.mu.Unlock()
 
 	// calling onLeave hook
@@ -273,6 +276,9 @@ func (r *Room[keyType]) RemoveAll() {
 	r.mu.Lock()
 	conns := r.conns               // copy
 	r.conns = make(map[*Conn]bool) // empty
+	for c := range conns {
+		c.removeOnClose(r)
+	}
 	r.mu.Unlock()
 
 	// calling hook
-- 
2.43.0


From f07420aec63960a75ab544c17ba6e48539a2754c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:34 +0000
Subject: [PATCH 18/37] fix: allow emptying a room that has no leave hook

---
 rooms_manager.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rooms_manager.go b/rooms_manager.go
index 6ee8eb9..ec88978 100755
--- a/rooms_manager.go
+++ b/rooms_manager.go
@@ -282,6 +282,9 @@ func (r *Room[keyType]) RemoveAll() {
 	r.mu.Unlock()
 
 	// calling hook
+	if r.OnLeave == nil {
+		return
+	}
 	for c := range conns {
 		r.OnLeave(r, c)
 	}
-- 
2.43.0


From c9ec3746946df63a88423d87d789430436799d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:36 +0000
Subject: [PATCH 19/37] fix: closing a stale room must not delete its successor

---
 rooms_manager.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rooms_manager.go b/rooms_manager.go
index ec88978..9688e10 100755
--- a/rooms_manager.go
+++ b/rooms_manager.go
@@ -217,7 +217,10 @@ func (r *Room[keyType]) Close() {
 
 	r.rm.mu.Lock()
 	defer r.rm.mu.Unlock()
-	delete(r.rm.rooms, r.Key)
+	// the key may belong to a newer room.
+	if r.rm.rooms[r.Key] == r {
+		delete(r.rm.rooms, r.Key)
+	}
 }
 
 // Add adds a connection to the room.
-- 
2.43.0


From 113b51cd8a81fa51c92091d53193837bdd3445ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:38 +0000
Subject: [PATCH 20/37] fix: shut down a manager without holding its lock

---
 manager.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/manager.go b/manager.go
index 97a2404..c1b1401 100755
--- a/manager.go
+++ b/manager.go
@@ -199,10 +199,10 @@ func (m *Manager[KeyType]) BroadcastJSON(ctx context.Context, v interface{}, exc
 // - Closes all connections normaly.
 // - Clears the conns map.
 func (m *Manager[KeyType]) Shutdown() {
-	m.mu.Lock()
-	defer m.mu.Unlock()
+	// the lock can't be held while closing, because the closing connections need it to unregister.
+	conns := m.GetAllConns()
 
-	workers := (len(m.conns) / 5) + 2
+	workers := (len(conns) / 5) + 2
 	var wg sync.WaitGroup
 	ch := make(chan *ManagedConn[KeyType], workers)
 
@@ -216,14 +216,20 @@ func (m *Manager[KeyType]) Shutdown() {
 		}()
 	}
 
-	conns := m.GetAllConns()
 	for _, conn := range conns {
 		ch <- conn
 	}
 	close(ch)
 	wg.Wait()
 
-	m.conns = make(map[KeyType]*ManagedConn[KeyType])
+	// some may still be unregistering from another goroutine.
+	m.mu.Lock()
+	defer m.mu.Unlock()
+	for _, conn := range conns {
+		if m.conns[conn.Key] == conn {
+			delete(m.conns, conn.Key)
+		}
+	}
 }
 
 // BatchBroadcast loops over the manager's connections and adds the given data into their batch.
-- 
2.43.0


From 539f6b0a1da2a861c4d4fedf73c5dcd3bdd5df5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:09 +0000
Subject: [PATCH 21/37] fix: shut down a room manager without holding its locks

---
 rooms_manager.go | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/rooms_manager.go b/rooms_manager.go
index 9688e10..ea52896 100755
--- a/rooms_manager.go
+++ b/rooms_manager.go
@@ -171,14 +171,17 @@ func (rm *RoomManager[keyType]) GetRoomKeys() []keyType {
 //
 // After calling Shutdown, the RoomManager should not be used.
 func (rm *RoomManager[keyType]) Shutdown() {
+	// the locks can't be held while closing, because the closing connections and the hooks need them.
 	rm.mu.Lock()
-	defer rm.mu.Unlock()
+	rooms := rm.rooms
+	rm.rooms = make(map[keyType]*Room[keyType])
+	rm.mu.Unlock()
 
-	connsCount := 0
-	for _, r := range rm.rooms {
-		r.mu.Lock()
-		connsCount += len(r.conns)
+	var conns []*Conn
+	for _, r := range rooms {
+		conns = append(conns, r.GetAllConns()...)
 	}
+	connsCount := len(conns)
 
 	var wg sync.WaitGroup
 	workers := (connsCount / 5) + 2
@@ -194,16 +197,11 @@ func (rm *RoomManager[keyType]) Shutdown() {
 		}()
 	}
 
-	for _, r := range rm.rooms {
-		for c := range r.conns {
-			ch <- c
-		}
-		r.mu.Unlock()
+	for _, c := range conns {
+		ch <- c
 	}
 
 	close(ch)
-	rm.rooms = make(map[keyType]*Room[keyType])
-
 	wg.Wait()
 }
 
-- 
2.43.0


From 8c86459f3caa777d0d164d240a72b3fd79a0b0eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:11 +0000
Subject: [PATCH 22/37] fix: count the first frame of a message as a fragment

---
 conn_read.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conn_read.go b/conn_read.go
index da53a27..2165f72 100755
--- a/conn_read.go
+++ b/conn_read.go
@@ -166,7 +166,7 @@ func (conn *Conn) NextReader() (io.Reader, uint8, error) {
 		return nil, nilOpcode, fatal(ErrInvalidOPCODE)
 	}
 
-	conn.reader.fragments = 0
+	conn.reader.fragments = 1
 	conn.reader.totalSize = conn.reader.remaining
 
 	ok, err := conn.allow()
-- 
2.43.0


From 0635d4a2665b390a8b2512b8294752b1fd4183b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:13 +0000
Subject: [PATCH 23/37] fix: allow unlimited messages and do not limit control
 frames by the message size

---
 conn_read.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/conn_read.go b/conn_read.go
index 2165f72..5f2ebe2 100755
--- a/conn_read.go
+++ b/conn_read.go
@@ -92,11 +92,6 @@ func (conn *Conn) acceptFrame() (uint8, error) {
 			n = int(lengthB)
 		}
 
-		if n > conn.upgrader.MaxMessageSize {
-			conn.CloseWithCode(CloseMessageTooBig, ErrTooLargePayload.Error())
-			return nilOpcode, ErrTooLargePayload
-		}
-
 		// handling control frames
 		if isControl(opcode) {
 			if !fin || n > MaxControlFramePayload {
@@ -119,6 +114,11 @@ func (conn *Conn) acceptFrame() (uint8, error) {
 			continue
 		}
 
+		if conn.upgrader.MaxMessageSize != -1 && n > conn.upgrader.MaxMessageSize {
+			conn.CloseWithCode(CloseMessageTooBig, ErrTooLargePayload.Error())
+			return nilOpcode, ErrTooLargePayload
+		}
+
 		// reseting conn.reader current frame info.
 		conn.reader.fin = fin
 		conn.reader.remaining = n
@@ -211,7 +211,7 @@ func (r *ConnReader) Read(p []byte) (n int, err error) {
 			return 0, fatal(ErrExpectedContinuation)
 		}
 		r.totalSize += r.remaining
-		if r.totalSize > r.conn.upgrader.MaxMessageSize {
+		if r.conn.upgrader.MaxMessageSize != -1 && r.totalSize > r.conn.upgrader.MaxMessageSize {
 			r.conn.CloseWithCode(CloseMessageTooBig, ErrMessageTooLarge.Error())
 			return 0, fatal(ErrMessageTooLarge)
 		}
-- 
2.43.0


From 6ebf58c1a7c91583dc7a55dff48f1930740c4aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:00 +0000
Subject: [PATCH 24/37] fix: skip the unread part of a message before reading
 the next one

---
 conn.go       | 2 +-
 conn_read.go  | 5 +++++
 conn_utils.go | 1 +
 3 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/conn.go b/conn.go
index 16e0d98..0d61bbc 100755
--- a/conn.go
+++ b/conn.go
@@ -80,7 +80,7 @@ func (u *Upgrader) newConn(c net.Conn, subProtocol string, br *bufio.Reader, wb
 		}
 	}
 
-	conn.reader = ConnReader{conn: conn}
+	conn.reader = ConnReader{conn: conn, fin: true}
 	conn.writer = conn.newWriter(wb)
 	conn.controlWriter = conn.newControlWriter()
 
diff --git a/conn_read.go b/conn_read.go
index 5f2ebe2..d38eac1 100755
--- a/conn_read.go
+++ b/conn_read.go
@@ -156,6 +156,11 @@ func (conn *Conn) NextReader() (io.Reader, uint8, error) {
 		return nil, nilOpcode, fatal(err)
 	}
 
+	// skip what the user didn't read of the previous message.
+	if err := conn.skipRestOfMessage(); err != nil {
+		return nil, nilOpcode, fatal(err)
+	}
+
 	opcode, err := conn.acceptFrame()
 	if err != nil {
 		return nil, nilOpcode, fatal(err)
diff --git a/conn_utils.go b/conn_utils.go
index b520c94..88b736c 100755
--- a/conn_utils.go
+++ b/conn_utils.go
@@ -139,6 +139,7 @@ func (conn *Conn) skipRestOfMessage() error {
 			return err
 		}
 	}
+	conn.reader.remaining = 0
 
 	return nil
 }
-- 
2.43.0


From 3d6105725d02ddd28b64e0ff32b386d6f83642c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:02 +0000
Subject: [PATCH 25/37] fix: read the whole message before returning its JSON
 value

---
 conn_read.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/conn_read.go b/conn_read.go
index d38eac1..bf34923 100755
--- a/conn_read.go
+++ b/conn_read.go
@@ -331,5 +331,11 @@ func (conn *Conn) ReadJSON(v any) error {
 		return ErrMessageTypeMismatch
 	}
 
-	return json.NewDecoder(reader).Decode(v)
+	if err = json.NewDecoder(reader).Decode(v); err != nil {
+		return err
+	}
+
+	// the value may end before the message does.
+	_, err = io.Copy(io.Discard, reader)
+	return err
 }
-- 
2.43.0


From 02378ad08ef28b487bd8c87674e2b85e9f0faa4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:04 +0000
Subject: [PATCH 26/37] fix: make the read buffer large enough for every
 control frame

---
 conn.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/conn.go b/conn.go
index 0d61bbc..4da8f47 100755
--- a/conn.go
+++ b/conn.go
@@ -66,13 +66,14 @@ func (u *Upgrader) newConn(c net.Conn, subProtocol string, br *bufio.Reader, wb
 	conn.writeLock = newMu(conn)
 
 	size := u.ReadBufferSize
-	if (size == 0 && br != nil) || (br != nil && size == br.Size()) {
+	if br != nil && (size == 0 || size == br.Size()) && br.Size() >= MaxControlFramePayload {
 		conn.readBuf = br
 	} else {
-		if size < MaxHeaderSize {
-			size += MaxHeaderSize
+		// control frames are read in one piece.
+		if size < MaxControlFramePayload {
+			size = MaxControlFramePayload
 		}
-		if br.Buffered() > 0 && br != nil {
+		if br != nil && br.Buffered() > 0 {
 			// The client sent data before receiving the response.
 			conn.readBuf = bufio.NewReaderSize(&brNetConn{Conn: conn.raw, br: br}, size)
 		} else {
-- 
2.43.0


From feb313f7cbf358e7b376fb70f53a2759890f455c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:06 +0000
Subject: [PATCH 27/37] fix: make the write buffer larger than a frame header

---
 options.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/options.go b/options.go
index 8c3f0bc..a20d218 100755
--- a/options.go
+++ b/options.go
@@ -116,6 +116,9 @@ func (opt *Options) WithDefault() {
 	}
 	if opt.WriteBufferSize == 0 {
 		opt.WriteBufferSize = DefaultWriteBufferSize
+	} else if opt.WriteBufferSize <= MaxHeaderSize {
+		// there must be space for a payload after the frame's header.
+		opt.WriteBufferSize += MaxHeaderSize
 	}
 	if opt.BroadcastChannelsSize == 0 {
 		opt.BroadcastChannelsSize = DefaultBroadcastChannelsSize
-- 
2.43.0


From 4d6304bd6b2b4c6fc714630b0f3b02c45de785a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:08 +0000
Subject: [PATCH 28/37] fix: allow closing a nil writer like the other writer
 methods

---
 conn_write.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conn_write.go b/conn_write.go
index 9466f40..4ae7bcd 100755
--- a/conn_write.go
+++ b/conn_write.go
@@ -177,7 +177,7 @@ func (w *ConnWriter) flush(FIN bool) error {
 // Close flushes the final frame and releases the writer lock.
 // If a flush failed and wasn't retried successfully, the message is aborted and the error is returned.
 func (w *ConnWriter) Close() error {
-	if w.closed {
+	if w == nil || w.closed {
 		return nil
 	}
 	if w.failed != nil {
-- 
2.43.0


From bf7efc71b9cacbf2f417fc500e72a3b13184b790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:09 +0000
Subject: [PATCH 29/37] fix: never send a close reason that is not valid UTF-8

---
 conn_write.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/conn_write.go b/conn_write.go
index 4ae7bcd..a366ebc 100755
--- a/conn_write.go
+++ b/conn_write.go
@@ -5,6 +5,7 @@ import (
 	"encoding/binary"
 	"encoding/json"
 	"time"
+	"unicode/utf8"
 )
 
 // ConnWriter is NOT safe for concurrent use.
@@ -398,7 +399,7 @@ func (cw *ControlWriter) writeClose(closeCode uint16, reason string) {
 	cw.buf[0] = 0x80 + OpcodeClose
 	cw.buf[1] = 2
 	binary.BigEndian.PutUint16(cw.buf[2:4], closeCode)
-	if len(reason) > 0 && len(reason) <= MaxControlFramePayload-2 {
+	if len(reason) > 0 && len(reason) <= MaxControlFramePayload-2 && utf8.ValidString(reason) {
 		cw.buf[1] += byte(len(reason))
 		cw.buf = append(cw.buf, reason...)
 	}
-- 
2.43.0


From 3aed10c496ecc6642ffb9c440a55d9fd442fc2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:31 +0000
Subject: [PATCH 30/37] fix: close the connection when the rate limit hook
 returns an error

---
 conn_utils.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/conn_utils.go b/conn_utils.go
index 88b736c..3c1b543 100755
--- a/conn_utils.go
+++ b/conn_utils.go
@@ -110,6 +110,10 @@ func (conn *Conn) allow() (bool, error) {
 	if conn.upgrader.Limiter != nil && !conn.upgrader.Limiter.allow(conn) {
 		if conn.upgrader.Limiter.OnRateLimitHit != nil {
 			err := conn.upgrader.Limiter.OnRateLimitHit(conn)
+			if err != nil {
+				// no-op if the hook has closed it.
+				conn.CloseWithCode(ClosePolicyViolation, "rate limited")
+			}
 			return false, err
 		}
 		return false, nil
-- 
2.43.0


From 4ede53e672786c9c51c68b1c1a5307e1988bfa50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:33 +0000
Subject: [PATCH 31/37] fix: start the connection after the handshake response
 was written

---
 upgrader.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/upgrader.go b/upgrader.go
index 0ce1c74..79da4f3 100755
--- a/upgrader.go
+++ b/upgrader.go
@@ -105,7 +105,6 @@ func (u *Upgrader) Upgrade(w http.ResponseWriter, r *http.Request) (*Conn, error
 	}
 
 	p := brw.Writer.AvailableBuffer()
-	conn := u.newConn(c, subProtocol, brw.Reader, p)
 
 	// writing response
 	p = append(p, "HTTP/1.1 101 Switching Protocols\r\n"...)
@@ -123,9 +122,13 @@ func (u *Upgrader) Upgrade(w http.ResponseWriter, r *http.Request) (*Conn, error
 
 	_, err = c.Write(p)
 	if err != nil {
+		c.Close()
 		return nil, err
 	}
 
+	// after the response, because nothing can be sent before it.
+	conn := u.newConn(c, subProtocol, brw.Reader, p)
+
 	if u.OnConnect != nil {
 		u.OnConnect(conn)
 	}
-- 
2.43.0


From a68e57404c9ddbf681c92e26a027736c3afbf256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:35 +0000
Subject: [PATCH 32/37] fix: rate limit a connection from its start and release
 it when it closes early

---
 conn.go     | 5 +++++
 upgrader.go | 4 ----
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/conn.go b/conn.go
index 4da8f47..01ce2a4 100755
--- a/conn.go
+++ b/conn.go
@@ -89,6 +89,11 @@ func (u *Upgrader) newConn(c net.Conn, subProtocol string, br *bufio.Reader, wb
 		u.Flusher.newBatch(conn)
 	}
 
+	// before anything can read from the connection or close it.
+	if u.Limiter != nil {
+		u.Limiter.addClient(conn)
+	}
+
 	go conn.pingLoop()
 
 	return conn
diff --git a/upgrader.go b/upgrader.go
index 79da4f3..9c0c22b 100755
--- a/upgrader.go
+++ b/upgrader.go
@@ -133,10 +133,6 @@ func (u *Upgrader) Upgrade(w http.ResponseWriter, r *http.Request) (*Conn, error
 		u.OnConnect(conn)
 	}
 
-	if u.Limiter != nil {
-		u.Limiter.addClient(conn)
-	}
-
 	return conn, err
 }
 
-- 
2.43.0


From 992a1c7a1aefa0e71fc3589dc55f9db5334012e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:37 +0000
Subject: [PATCH 33/37] fix: consider every line of repeated handshake headers

---
 upgrader.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/upgrader.go b/upgrader.go
index 9c0c22b..63ae9db 100755
--- a/upgrader.go
+++ b/upgrader.go
@@ -137,7 +137,7 @@ func (u *Upgrader) Upgrade(w http.ResponseWriter, r *http.Request) (*Conn, error
 }
 
 func validateConnectionHeader(r *http.Request) error {
-	rawHeader := r.Header.Get("Connection")
+	rawHeader := strings.Join(r.Header.Values("Connection"), ",")
 	if rawHeader == "" {
 		return ErrMissingConnectionHeader
 	}
@@ -154,7 +154,7 @@ func validateConnectionHeader(r *http.Request) error {
 }
 
 func validateUpgradeHeader(r *http.Request) error {
-	rawHeader := r.Header.Get("Upgrade")
+	rawHeader := strings.Join(r.Header.Values("Upgrade"), ",")
 	if rawHeader == "" {
 		return ErrMissingUpgradeHeader
 	}
@@ -200,7 +200,7 @@ func selectSubProtocol(r *http.Request, subProtocols []string) string {
 	if subProtocols == nil {
 		return ""
 	}
-	rawHeader := r.Header.Get("Sec-WebSocket-Protocol")
+	rawHeader := strings.Join(r.Header.Values("Sec-WebSocket-Protocol"), ",")
 	if rawHeader == "" {
 		return ""
 	}
-- 
2.43.0


From c7afd590ef49b6a9790e7f2dee9bd5d386ab0603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:35 +0000
Subject: [PATCH 34/37] fix: never start a message on a closed connection

---
 conn_utils.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/conn_utils.go b/conn_utils.go
index 3c1b543..f0da816 100755
--- a/conn_utils.go
+++ b/conn_utils.go
@@ -44,6 +44,18 @@ func (m *mu) lock() error {
 	case <-m.conn.done:
 		return fatal(ErrConnClosed)
 	case m.ch <- struct{}{}:
+		return m.locked()
+	}
+}
+
+// called after acquiring the lock. The lock and the closing might have been both ready,
+// nothing can be started on a closed connection.
+func (m *mu) locked() error {
+	select {
+	case <-m.conn.done:
+		m.unLock()
+		return fatal(ErrConnClosed)
+	default:
 		return nil
 	}
 }
@@ -83,7 +95,7 @@ func (m *mu) lockCtx(ctx context.Context) error {
 	case <-m.conn.done:
 		return fatal(ErrConnClosed)
 	case m.ch <- struct{}{}:
-		return nil
+		return m.locked()
 	case <-ctx.Done():
 		return ctx.Err()
 	}
@@ -94,7 +106,7 @@ func (m *mu) lockTimer(t *time.Timer) error {
 	case <-m.conn.done:
 		return fatal(ErrConnClosed)
 	case m.ch <- struct{}{}:
-		return nil
+		return m.locked()
 	case <-t.C:
 		return ErrTimeout
 	}
-- 
2.43.0


From 24cc31c4f61bb902209f20df8215bee98547544e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:28 +0000
Subject: [PATCH 35/37] fix: GetArg reports a negative index instead of
 panicking

---
 rooms_manager.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rooms_manager.go b/rooms_manager.go
index ea52896..cebe702 100755
--- a/rooms_manager.go
+++ b/rooms_manager.go
@@ -21,7 +21,7 @@ type roomHook[keyType comparable] func(room *Room[keyType], conn *Conn, args ...
 // it returns the casted value and true.
 // Otherwise it returns the zero value of the given generic type and false.
 func GetArg[T any](args []any, index int) (T, bool) {
-	if len(args) > index {
+	if index >= 0 && len(args) > index {
 		v, ok := args[index].(T)
 		return v, ok
 	}
-- 
2.43.0


From f3668b34d58296f38caa2c78333e69199bbc9b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:21 +0000
Subject: [PATCH 36/37] fix: report data after the JSON value of a message

---
 conn_read.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/conn_read.go b/conn_read.go
index bf34923..fcbac8b 100755
--- a/conn_read.go
+++ b/conn_read.go
@@ -331,11 +331,21 @@ func (conn *Conn) ReadJSON(v any) error {
 		return ErrMessageTypeMismatch
 	}
 
-	if err = json.NewDecoder(reader).Decode(v); err != nil {
+	dec := json.NewDecoder(reader)
+	if err = dec.Decode(v); err != nil {
 		return err
 	}
 
-	// the value may end before the message does.
-	_, err = io.Copy(io.Discard, reader)
+	// the value may end before the message does, but only white space can follow it.
+	if _, err = dec.Token(); err == io.EOF {
+		return nil
+	}
+	// a failure while reading the rest is fatal.
+	if _, readErr := io.Copy(io.Discard, reader); readErr != nil {
+		return readErr
+	}
+	if err == nil {
+		err = errors.New("invalid data after the JSON value")
+	}
 	return err
 }
-- 
2.43.0


From 9231876220d9694ce51ab8f23fe61c77f30372b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:06 +0000
Subject: [PATCH 37/37] fix: batch broadcasts to nobody fail after batching
 ended like all others

---
 broadcast.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/broadcast.go b/broadcast.go
index 62d9907..8ddf203 100755
--- a/broadcast.go
+++ b/broadcast.go
@@ -153,6 +153,15 @@ func (u *Upgrader) batchBroadcast(ctx context.Context, conns []*Conn, data []byt
 		ctx = context.Background()
 	}
 
+	// there may be no connections to check it for.
+	select {
+	case <-u.Flusher.closed:
+		return 0, ErrFlusherClosed
+	case <-u.Flusher.ctx.Done():
+		return 0, u.Flusher.ctx.Err()
+	default:
+	}
+
 	m := &batchMessage{buf: data}
 
 	for _, conn := range conns {
-- 
2.43.0

