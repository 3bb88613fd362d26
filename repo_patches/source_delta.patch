From 01385fe5a66d2d5bf70a7d97ca53b68a477047bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:07 +0000
Subject: [PATCH 01/53] fix: ToNonStream clears both stream bits

---
 qrpc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qrpc.go b/qrpc.go
index 67731bf..3d6ecfb 100644
--- a/qrpc.go
+++ b/qrpc.go
@@ -46,7 +46,7 @@ const (
 
 // ToNonStream convert flg to nonstreamed flag
 func (flg FrameFlag) ToNonStream() FrameFlag {
-	return flg & ^(StreamFlag & StreamEndFlag)
+	return flg & ^(StreamFlag | StreamEndFlag)
 }
 
 // ToStream convert flg to streamed flag
-- 
2.43.0


From 552937d3485fa8ed802d13ffc58c31a4fbf53b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:26 +0000
Subject: [PATCH 02/53] fix: client handlers see their connection on the first
 connect

The context of the first connection was derived from the plain context, so
ClientConnectionInfo, StreamInitiator and Close of a request panicked until a
reconnect.
---
 clientconn.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clientconn.go b/clientconn.go
index 184b82d..cf03125 100644
--- a/clientconn.go
+++ b/clientconn.go
@@ -201,7 +201,7 @@ func newConnection(rwc net.Conn, addr []string, conf ConnectionConfig, f SubFunc
 
 	if rwc != nil {
 		// loopxxx should be paired with rwc
-		loopCtx, loopCancelCtx := context.WithCancel(ctx)
+		loopCtx, loopCancelCtx := context.WithCancel(c.ctx)
 		c.loopCancelCtx = loopCancelCtx
 		atomic.StorePointer((*unsafe.Pointer)((unsafe.Pointer)(&c.loopCtx)), unsafe.Pointer(&loopCtx))
 		c.loopBytesWriter = NewWriterWithTimeout(loopCtx, rwc, conf.WriteTimeout)
-- 
2.43.0


From 0163ac1606820f3f0b9ff00be8e52e1e30abf50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:54 +0000
Subject: [PATCH 03/53] fix: a reset of an unanswered request reaches the
 requester

The frame reader swallowed rst frames, so the Response of a request that was
reset, whose handler panicked or returned without an answer, waited until the
connection was closed. A stream that is reset after this side has closed it is
now forgotten.
---
 clientconn.go  |  3 +++
 framereader.go |  8 +++++++-
 serveconn.go   |  3 +++
 stream.go      | 17 +++++++++++++++++
 4 files changed, 30 insertions(+), 1 deletion(-)

diff --git a/clientconn.go b/clientconn.go
index cf03125..841ac16 100644
--- a/clientconn.go
+++ b/clientconn.go
@@ -511,6 +511,9 @@ func (conn *Connection) readFrames() {
 				// just ignore it
 				return
 			}
+			if frame.Flags.IsRst() {
+				continue
+			}
 			if conn.conf.Handler != nil {
 				if !frame.FromServer() {
 					l.Error("clientconn get RequestFrame.RequestID not even")
diff --git a/framereader.go b/framereader.go
index 3240649..2baaea4 100644
--- a/framereader.go
+++ b/framereader.go
@@ -36,7 +36,8 @@ func newFrameReaderWithMFS(ctx context.Context, rwc net.Conn, timeout int, codec
 	return &defaultFrameReader{Reader: NewReaderWithTimeout(ctx, rwc, timeout), ctx: ctx, codec: codec, maxFrameSize: maxFrameSize}
 }
 
-// ReadFrame will only return the first frame in stream
+// ReadFrame will only return the first frame in stream,
+// which is a rst frame if a stream initiated by this side is reset unanswered
 func (dfr *defaultFrameReader) ReadFrame(cs *ConnStreams) (*Frame, error) {
 start:
 	f, err := dfr.readFrame()
@@ -55,6 +56,11 @@ start:
 		s := cs.GetStream(requestID, flags)
 		if s != nil {
 			s.ResetByPeer()
+			// the rst frame is all the peer sent for this stream,
+			// return it so that whoever waits for the first frame knows
+			if !flags.IsPush() && s.TryBindRst(f) {
+				return f, nil
+			}
 		}
 
 		goto start
diff --git a/serveconn.go b/serveconn.go
index 0a7f6d5..cf1f12a 100644
--- a/serveconn.go
+++ b/serveconn.go
@@ -410,6 +410,9 @@ func (sc *serveconn) readFrames() (err error) {
 				ci.Unlock()
 			}
 		}
+		if req.Flags.IsRst() {
+			continue
+		}
 
 		if req.Flags.IsNonBlock() {
 			select {
diff --git a/stream.go b/stream.go
index 20c3e96..5397a38 100644
--- a/stream.go
+++ b/stream.go
@@ -117,6 +117,19 @@ func (s *Stream) TryBind(firstFrame *Frame) bool {
 	return true
 }
 
+// TryBindRst is TryBind for a rst frame, called after ResetByPeer
+func (s *Stream) TryBindRst(rstFrame *Frame) bool {
+
+	if s.binded {
+		return false
+	}
+	s.binded = true
+
+	rstFrame.Stream = s
+
+	return true
+}
+
 // Done returns a channel for caller to wait for stream close
 // when channel returned, stream is cleanly closed
 func (s *Stream) Done() <-chan struct{} {
@@ -202,6 +215,10 @@ func (s *Stream) ResetByPeer() {
 	}
 
 	s.reset()
+
+	if atomic.LoadInt32(&s.closedSelf) != 0 {
+		s.afterDone()
+	}
 }
 
 func (s *Stream) afterDone() {
-- 
2.43.0


From f27684efe7424101b702db24ee0f064be18b7d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:50 +0000
Subject: [PATCH 04/53] fix: a server's Request is never streamed

Like Request of a client; with a stream bit the request was never ended.
---
 serveconn.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serveconn.go b/serveconn.go
index cf1f12a..1942ab5 100644
--- a/serveconn.go
+++ b/serveconn.go
@@ -699,7 +699,7 @@ func (sc *serveconn) tryFreeStreams() {
 
 // Request clientconn from serveconn
 func (sc *serveconn) Request(cmd Cmd, flags FrameFlag, payload []byte) (uint64, Response, error) {
-	flags = flags | NBFlag
+	flags = flags.ToNonStream() | NBFlag
 	requestID, resp, _, err := sc.writeFirstFrame(cmd, flags, payload)
 
 	return requestID, resp, err
-- 
2.43.0


From 8fce672db6f5fcac5a251453b121f1ce9f771155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:00 +0000
Subject: [PATCH 05/53] fix: frames do not carry bytes of unfinished ones

The buffer of a writer was only reset after a successful EndWrite, so the bytes
of a frame that was abandoned, whose codec failed or whose handler panicked were
sent as part of the next frame of the (pooled) writer, maybe on another
connection.
---
 framewriter.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/framewriter.go b/framewriter.go
index 94d7390..3b14f0c 100644
--- a/framewriter.go
+++ b/framewriter.go
@@ -48,7 +48,9 @@ func (dfw *defaultFrameWriter) Finalize() {
 }
 
 // StartWrite Write the FrameHeader.
+// it drops whatever is left from a frame that was not finished
 func (dfw *defaultFrameWriter) StartWrite(requestID uint64, cmd Cmd, flags FrameFlag) {
+	dfw.wbuf = dfw.wbuf[:headerSize]
 	binary.BigEndian.PutUint64(dfw.wbuf[4:], requestID)
 	cmdAndFlags := uint32(flags)<<24 + uint32(cmd)&0xffffff
 	binary.BigEndian.PutUint32(dfw.wbuf[12:], cmdAndFlags)
@@ -185,6 +187,7 @@ type defaultStreamWriter defaultFrameWriter
 
 func (dsw *defaultStreamWriter) StartWrite(cmd Cmd) {
 	dfw := (*defaultFrameWriter)(dsw)
+	dfw.wbuf = dfw.wbuf[:headerSize]
 	dfw.SetCmd(cmd)
 }
 
-- 
2.43.0


From 6c48a5d1c8d217ef7fbe27b3bf68339647799bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:32 +0000
Subject: [PATCH 06/53] fix: only a request starts a stream

A frame written after the final answer of a request created its stream anew
and went out. Both roles now look the stream up unless the frame is the first
one of a request; in a batch the client ignored checkExist altogether.
---
 clientconn.go | 18 ++++++++++++++----
 serveconn.go  |  2 +-
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/clientconn.go b/clientconn.go
index 841ac16..9f9f4c8 100644
--- a/clientconn.go
+++ b/clientconn.go
@@ -627,7 +627,7 @@ firstFrame:
 			}
 		} else if !flags.IsPush() { // skip stream logic if PushFlag set
 			var s *Stream
-			if dfw.checkExist {
+			if dfw.checkExist || dfw.resp == nil { // only a request starts a stream
 				s = conn.cs.GetStream(requestID, flags)
 				if s == nil {
 					res.result <- ErrStreamNotExists
@@ -679,9 +679,19 @@ firstFrame:
 					break
 				}
 			} else if !flags.IsPush() { // skip stream logic if PushFlag set
-				s, loaded := conn.cs.CreateOrGetStream(*conn.loopCtx, requestID, flags)
-				if !loaded {
-					l.Debug("serveconn new stream", zap.Uint64("requestID", requestID), zap.Uint8("flags", uint8(flags)), zap.Uint32("cmd", uint32(dfw.Cmd())))
+				var s *Stream
+				if dfw.checkExist || dfw.resp == nil { // only a request starts a stream
+					s = conn.cs.GetStream(requestID, flags)
+					if s == nil {
+						res.result <- ErrStreamNotExists
+						break
+					}
+				} else {
+					var loaded bool
+					s, loaded = conn.cs.CreateOrGetStream(*conn.loopCtx, requestID, flags)
+					if !loaded {
+						l.Debug("serveconn new stream", zap.Uint64("requestID", requestID), zap.Uint8("flags", uint8(flags)), zap.Uint32("cmd", uint32(dfw.Cmd())))
+					}
 				}
 				if !s.AddOutFrame(requestID, flags) {
 					res.result <- ErrWriteAfterCloseSelf
diff --git a/serveconn.go b/serveconn.go
index 1942ab5..395386f 100644
--- a/serveconn.go
+++ b/serveconn.go
@@ -650,7 +650,7 @@ func (sc *serveconn) collectWriteFrames(batch int) error {
 				}
 			} else if !flags.IsPush() { // skip stream logic if PushFlag set
 				var s *Stream
-				if dfw.checkExist {
+				if dfw.checkExist || dfw.resp == nil { // only a request starts a stream
 					s = sc.cs.GetStream(requestID, flags)
 					if s == nil {
 						res.result <- ErrStreamNotExists
-- 
2.43.0


From ec23d1adb50d43882e64dd9ab8ab290500a20a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:12 +0000
Subject: [PATCH 07/53] fix: the flags of a frame do not stick to its stream
 writer

ResetFrame and a failed EndWrite(true) left their flag set, so that later
frames of the writer went out as resets or ended the stream.
---
 framewriter.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/framewriter.go b/framewriter.go
index 3b14f0c..ff65523 100644
--- a/framewriter.go
+++ b/framewriter.go
@@ -149,10 +149,14 @@ func (dfw *defaultFrameWriter) Length() int {
 }
 
 func (dfw *defaultFrameWriter) StreamEndWrite(end bool) error {
+	flags := dfw.Flags()
 	if end {
-		dfw.SetFlags(dfw.Flags().ToEndStream())
+		dfw.SetFlags(flags.ToEndStream())
 	}
-	return dfw.EndWrite()
+	err := dfw.EndWrite()
+	// the flags of this frame must not stick to the next one
+	dfw.SetFlags(flags)
+	return err
 }
 
 func (dfw *defaultFrameWriter) ResetFrame(requestID uint64, reason Cmd) error {
@@ -209,7 +213,10 @@ func (dsw *defaultStreamWriter) EndWriteCompressed() (err error) {
 
 func (dsw *defaultStreamWriter) ResetFrame(reason Cmd) (err error) {
 	dfw := (*defaultFrameWriter)(dsw)
+	flags := dfw.Flags()
 	err = dfw.ResetFrame(dfw.RequestID(), reason)
+	// the flags of this frame must not stick to the next one
+	dfw.SetFlags(flags)
 	return
 
 }
-- 
2.43.0


From f570eea3cac482756218d90f18a13e3315542088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:52 +0000
Subject: [PATCH 08/53] fix: streams nobody reads do not stall their connection

The reader waited forever for a consumer of a stream whose handler had
returned, which nobody subscribed to or requested, or which this side had
reset, and for the end of streams which got frames after their end. The
context of a request now ends with its handler, as documented; frames nobody
waits for are dropped.
---
 clientconn.go  |  8 ++++++++
 framereader.go |  5 ++---
 serveconn.go   |  6 ++++++
 stream.go      | 10 +++++-----
 4 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/clientconn.go b/clientconn.go
index 9f9f4c8..db61d2a 100644
--- a/clientconn.go
+++ b/clientconn.go
@@ -495,6 +495,9 @@ func (conn *Connection) readFrames() {
 			// pushed frame
 			if conn.subscriber != nil {
 				conn.subscriber(conn, frame)
+			} else {
+				// nobody reads the rest of the stream
+				frame.Stream.reset()
 			}
 
 			continue
@@ -533,6 +536,8 @@ func (conn *Connection) readFrames() {
 			}
 
 			l.Error("dangling resp", zap.Uint64("requestID", frame.RequestID))
+			// nobody reads the rest of the stream
+			frame.Stream.reset()
 
 			continue
 		}
@@ -568,6 +573,9 @@ func (conn *Connection) handleRequestPanic(frame *RequestFrame, begin time.Time)
 		}
 		w.Finalize()
 	}
+
+	// nobody reads the rest of the stream anymore
+	s.reset()
 }
 
 func (conn *Connection) getWriter() *defaultFrameWriter {
diff --git a/framereader.go b/framereader.go
index 2baaea4..225d89f 100644
--- a/framereader.go
+++ b/framereader.go
@@ -73,9 +73,8 @@ start:
 	if s.TryBind(f) {
 		return f, nil
 	}
-	ok := s.AddInFrame(f)
-	if !ok {
-		<-s.Done()
+	if !s.AddInFrame(f) {
+		l.Debug("frame after the end of its stream", zap.Uint64("requestID", requestID))
 	}
 
 	goto start
diff --git a/serveconn.go b/serveconn.go
index 395386f..b6cfcc9 100644
--- a/serveconn.go
+++ b/serveconn.go
@@ -275,6 +275,9 @@ func (sc *serveconn) handleRequestPanic(frame *RequestFrame, begin time.Time, in
 		}
 	}
 
+	// nobody reads the rest of the stream anymore
+	s.reset()
+
 }
 
 func (sc *serveconn) GetID() string {
@@ -386,6 +389,9 @@ func (sc *serveconn) readFrames() (err error) {
 			// pushed frame
 			if binding.SubFunc != nil {
 				binding.SubFunc(ci, req)
+			} else {
+				// nobody reads the rest of the stream
+				req.Stream.reset()
 			}
 
 			continue
diff --git a/stream.go b/stream.go
index 5397a38..4f4921c 100644
--- a/stream.go
+++ b/stream.go
@@ -139,8 +139,7 @@ func (s *Stream) Done() <-chan struct{} {
 // AddInFrame tries to add an inframe to stream
 // framereader will call AddInFrame after TryBind fails
 // return value means whether accepted by stream
-// if not accepted, framereader should wait until stream closed,
-// and call DeleteStream then CreateOrGetStream again
+// frames which are not accepted, or for which nobody waits anymore, are dropped
 func (s *Stream) AddInFrame(frame *Frame) bool {
 	if atomic.LoadInt32(&s.closedPeer) != 0 {
 		return false
@@ -148,11 +147,10 @@ func (s *Stream) AddInFrame(frame *Frame) bool {
 
 	select {
 	case s.frameCh <- frame:
-		s.closePeerIfNeeded(frame.Flags)
-		return true
 	case <-s.ctx.Done():
-		return false
 	}
+	s.closePeerIfNeeded(frame.Flags)
+	return true
 }
 
 func (s *Stream) closePeerIfNeeded(flags FrameFlag) {
@@ -182,6 +180,8 @@ func (s *Stream) AddOutFrame(requestID uint64, flags FrameFlag) bool {
 
 	if isRst {
 		oldClosedSelf := atomic.SwapInt32(&s.closedSelf, 1)
+		// whoever resets a stream need not read the rest of it
+		s.reset()
 		// no need to send rst if both sides has already closed before this turn
 		if atomic.LoadInt32(&s.closedPeer) != 0 {
 			s.afterDone()
-- 
2.43.0


From 1cba0e2ea010a13fc8fb7f9e06d8dd14e9bb7d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:55 +0000
Subject: [PATCH 09/53] fix: push ids do not meet the ids of pushed streams

GetPushID counted through the even numbers StreamRequest uses for streams pushed
from the server, so a push could end up inside a pushed stream.
---
 server.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/server.go b/server.go
index bf17653..94daa1e 100644
--- a/server.go
+++ b/server.go
@@ -559,9 +559,10 @@ func (srv *Server) OnShutdown(f func()) {
 }
 
 // GetPushID gets the pushId
+// it's odd, so that it never meets the id of a stream pushed by StreamRequest
 func (srv *Server) GetPushID() uint64 {
 	pushID := atomic.AddUint64(&srv.pushID, 1)
-	return pushID
+	return 2*pushID + 1
 }
 
 // WalkConnByID iterates over  serveconn by ids
-- 
2.43.0


From d5dfde1e9d45c512ec69523b29be82070899169f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:19 +0000
Subject: [PATCH 10/53] fix: a stream never continues after a dropped frame

A frame dropped because the stream's context had ended could be followed by a
delivered one.
---
 stream.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/stream.go b/stream.go
index 4f4921c..a51faa2 100644
--- a/stream.go
+++ b/stream.go
@@ -145,9 +145,14 @@ func (s *Stream) AddInFrame(frame *Frame) bool {
 		return false
 	}
 
+	// nothing is delivered after a dropped frame
 	select {
-	case s.frameCh <- frame:
 	case <-s.ctx.Done():
+	default:
+		select {
+		case s.frameCh <- frame:
+		case <-s.ctx.Done():
+		}
 	}
 	s.closePeerIfNeeded(frame.Flags)
 	return true
-- 
2.43.0


From a52570e864d9db815a9e45aad0159a4b3236dfad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:16 +0000
Subject: [PATCH 11/53] fix: a lost client connection ends although handlers
 read their streams

The client released the streams of a lost connection only after all handlers
had returned, which wait for their streams, or for frames nobody writes
anymore. The network connection is read under its lock.
---
 clientconn.go | 34 ++++++++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/clientconn.go b/clientconn.go
index db61d2a..b8b9cf1 100644
--- a/clientconn.go
+++ b/clientconn.go
@@ -50,7 +50,8 @@ type Connection struct {
 	loopCtx         *context.Context
 	loopCancelCtx   context.CancelFunc
 	loopBytesWriter *Writer
-	loopWG          *sync.WaitGroup
+	loopWG          *sync.WaitGroup // for read/write goroutines
+	handlerWG       *sync.WaitGroup // for handlers
 
 	cachedRequests []*writeFrameRequest
 	cachedBuffs    net.Buffers
@@ -218,6 +219,7 @@ func (conn *Connection) loop() {
 		}
 
 		conn.loopWG = &sync.WaitGroup{}
+		conn.handlerWG = &sync.WaitGroup{}
 		util.GoFunc(conn.loopWG, func() {
 			conn.readFrames()
 		})
@@ -445,11 +447,32 @@ func (conn *Connection) closeRWC() {
 // endLoop is called after read/write g finishes, so no need for lock
 func (conn *Connection) endLoop() {
 
+	// ends the streams handlers may be reading
 	conn.cs.Release()
+	conn.waitHandlers()
 	conn.cs = &ConnStreams{}
 
 }
 
+// waitHandlers waits for all handlers of the lost connection,
+// whatever is queued meanwhile fails since nobody else will take it
+func (conn *Connection) waitHandlers() {
+	done := make(chan struct{})
+	go func() {
+		conn.handlerWG.Wait()
+		close(done)
+	}()
+
+	for {
+		select {
+		case <-done:
+			return
+		case res := <-conn.writeFrameCh:
+			res.result <- ErrConnAlreadyClosed
+		}
+	}
+}
+
 // Close closes the qrpc connection
 func (conn *Connection) Close() error {
 
@@ -478,11 +501,14 @@ func (conn *Connection) readFrames() {
 
 	defer conn.loopCancelCtx()
 
+	conn.mu.Lock()
+	rwc := conn.rwc
+	conn.mu.Unlock()
 	// in case closeRWC is already called
-	if conn.rwc == nil {
+	if rwc == nil {
 		return
 	}
-	reader := newFrameReader(*conn.loopCtx, conn.rwc, conn.conf.ReadTimeout, conn.conf.Codec)
+	reader := newFrameReader(*conn.loopCtx, rwc, conn.conf.ReadTimeout, conn.conf.Codec)
 	defer reader.Finalize()
 
 	for {
@@ -526,7 +552,7 @@ func (conn *Connection) readFrames() {
 					l.Error("clientconn get RequestFrame block")
 					return
 				}
-				util.GoFunc(conn.loopWG, func() {
+				util.GoFunc(conn.handlerWG, func() {
 					defer conn.handleRequestPanic((*RequestFrame)(frame), time.Now())
 					w := conn.getWriter()
 					conn.conf.Handler.ServeQRPC(w, (*RequestFrame)(frame))
-- 
2.43.0


From 70047cb962c5eb21c7912048762c26478e276c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:42 +0000
Subject: [PATCH 12/53] fix: serving a closed server returns

Serve on a server which was shut down before blocked forever and
kept its listener open, as Shutdown only closes listeners it knows.
---
 server.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/server.go b/server.go
index 94daa1e..fe1346f 100644
--- a/server.go
+++ b/server.go
@@ -283,7 +283,9 @@ func (srv *Server) Serve(ln Listener, idx int) error {
 	defer ln.Close()
 	var tempDelay time.Duration // how long to sleep on accept failure
 
-	srv.trackListener(ln, idx, true)
+	if !srv.trackListener(ln, idx, true) {
+		return ErrServerClosed
+	}
 	defer srv.trackListener(ln, idx, false)
 
 	acceptCheckFunc := srv.bindings[idx].LifecycleCallbacks.OnAccept
@@ -407,14 +409,19 @@ func (ln *TCPKeepAliveListener) Accept() (c net.Conn, err error) {
 	return
 }
 
-func (srv *Server) trackListener(ln net.Listener, idx int, add bool) {
+// trackListener returns false when adding to a closed server
+func (srv *Server) trackListener(ln net.Listener, idx int, add bool) bool {
 	srv.mu.Lock()
 	defer srv.mu.Unlock()
 	if add {
+		if srv.done {
+			return false
+		}
 		srv.listeners[idx] = ln
 	} else {
 		srv.listeners[idx] = nil
 	}
+	return true
 }
 
 // Create new connection from rwc.
-- 
2.43.0


From b8aa7e021f9e9c35b46923d2896f33665d9c17e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:04 +0000
Subject: [PATCH 13/53] fix: shutdown ends connections whose blocking handler
 waits for an answer

The reader left when the server's context ended without closing the
connection, so a blocking handler waiting for the answer to its own
request was never released and Shutdown hung.
---
 serveconn.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/serveconn.go b/serveconn.go
index b6cfcc9..50791ff 100644
--- a/serveconn.go
+++ b/serveconn.go
@@ -333,6 +333,10 @@ func (sc *serveconn) readFrames() (err error) {
 	}
 
 	defer func() {
+		// a blocking handler may wait for what only ends with the connection
+		if !sc.IsClosed() {
+			sc.Close()
+		}
 		sc.tryFreeStreams()
 
 		if err == ErrFrameTooLarge {
-- 
2.43.0


From 7e8b7d68a1821b45c0265989d7c5e19a3156ecb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:15 +0000
Subject: [PATCH 14/53] fix: no connection is added while Shutdown waits

A connection accepted concurrently with Shutdown was added to a wait
group which is being waited for (a WaitGroup misuse that can panic), and
Shutdown could return while it was served.
---
 server.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/server.go b/server.go
index fe1346f..492d332 100644
--- a/server.go
+++ b/server.go
@@ -333,10 +333,21 @@ func (srv *Server) Serve(ln Listener, idx int) error {
 			}
 		}
 
+		// nothing may be added while Shutdown waits
+		srv.mu.Lock()
+		if srv.done {
+			srv.mu.Unlock()
+			rw.Close()
+			if closeNotifyFunc != nil {
+				closeNotifyFunc(rw)
+			}
+			return ErrServerClosed
+		}
 		util.GoFunc(&srv.wg, func() {
 			c := srv.newConn(serveCtx, rw, idx)
 			c.serve()
 		})
+		srv.mu.Unlock()
 	}
 }
 
-- 
2.43.0


From 766fcf5589093cd334bd1c6bba6158c91918d367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:54 +0000
Subject: [PATCH 15/53] fix: a closed reconnecting client stops connecting

connect only looked at the context after a failed dial, so as long as
dialling succeeded a closed client kept reconnecting in a hot loop and
Wait never returned.
---
 clientconn.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/clientconn.go b/clientconn.go
index b8b9cf1..f3ce53a 100644
--- a/clientconn.go
+++ b/clientconn.go
@@ -266,6 +266,13 @@ func (conn *Connection) connect() error {
 
 	count := 0
 	for {
+		// conn.Close() may have been called
+		select {
+		case <-conn.ctx.Done():
+			return conn.ctx.Err()
+		default:
+		}
+
 		addr := conn.addrs[conn.idx%len(conn.addrs)]
 		conn.idx++
 		count++
@@ -296,12 +303,6 @@ func (conn *Connection) connect() error {
 		if count >= len(conn.addrs) {
 			time.Sleep(reconnectIntervalAfter1stRound)
 		}
-
-		select {
-		case <-conn.ctx.Done():
-			return conn.ctx.Err()
-		default:
-		}
 	}
 
 }
-- 
2.43.0


From da393b51afbc2f90aa7627c98e6671d6f86a2112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:08 +0000
Subject: [PATCH 16/53] fix: calls on a closed reconnecting client end

A write queued after Close on a reconnecting connection waited forever
for a loop which does not run anymore.
---
 clientconn.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/clientconn.go b/clientconn.go
index f3ce53a..be4c26a 100644
--- a/clientconn.go
+++ b/clientconn.go
@@ -399,13 +399,15 @@ func (conn *Connection) writeFrameBytes(dfw *defaultFrameWriter) error {
 		return loopCtx.Err()
 	}
 
-	// if reconnect is enabled, wfr is guaranteed to be processed finally once committed
+	// if reconnect is enabled, wfr is guaranteed to be processed finally once committed, unless closed
 	if conn.reconnect {
 		select {
 		case err := <-wfr.result:
 			wfr.dfw = nil
 			wfrPool.Put(wfr)
 			return err
+		case <-conn.ctx.Done():
+			return conn.ctx.Err()
 		}
 	} else {
 		select {
-- 
2.43.0


From c63876541389f08f7e29605bb17b6367d6644cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:24 +0000
Subject: [PATCH 17/53] fix: an abandoned write does not touch the connection

When the connection ended while a frame was queued the writer returned
and reused its buffer, though the frame could just be collected, so that
a frame header without its payload went out on the wire. A frame is now
either taken, then its writer waits for the result, or abandoned.
---
 clientconn.go | 26 ++++++++++++--------------
 serveconn.go  | 43 ++++++++++++++++++++++++++++++++++++++-----
 2 files changed, 50 insertions(+), 19 deletions(-)

diff --git a/clientconn.go b/clientconn.go
index be4c26a..458fe60 100644
--- a/clientconn.go
+++ b/clientconn.go
@@ -382,12 +382,7 @@ func (conn *Connection) getCodec() CompressorCodec {
 
 func (conn *Connection) writeFrameBytes(dfw *defaultFrameWriter) error {
 
-	wfr := wfrPool.Get().(*writeFrameRequest)
-	wfr.dfw = dfw
-	// just in case
-	if len(wfr.result) > 0 {
-		<-wfr.result
-	}
+	wfr := newWriteFrameRequest(dfw)
 
 	loopCtx := conn.atomicLoopCtx()
 	if loopCtx == nil {
@@ -407,7 +402,7 @@ func (conn *Connection) writeFrameBytes(dfw *defaultFrameWriter) error {
 			wfrPool.Put(wfr)
 			return err
 		case <-conn.ctx.Done():
-			return conn.ctx.Err()
+			return wfr.abandon(conn.ctx.Err())
 		}
 	} else {
 		select {
@@ -416,7 +411,7 @@ func (conn *Connection) writeFrameBytes(dfw *defaultFrameWriter) error {
 			wfrPool.Put(wfr)
 			return err
 		case <-loopCtx.Done():
-			return loopCtx.Err()
+			return wfr.abandon(loopCtx.Err())
 		}
 	}
 
@@ -471,7 +466,9 @@ func (conn *Connection) waitHandlers() {
 		case <-done:
 			return
 		case res := <-conn.writeFrameCh:
-			res.result <- ErrConnAlreadyClosed
+			if res.take() {
+				res.result <- ErrConnAlreadyClosed
+			}
 		}
 	}
 }
@@ -647,6 +644,9 @@ func (conn *Connection) collectWriteFrames(batch int) error {
 firstFrame:
 	select {
 	case res = <-conn.writeFrameCh:
+		if !res.take() {
+			goto firstFrame
+		}
 		dfw = res.dfw
 		flags = dfw.Flags()
 		requestID = dfw.RequestID()
@@ -700,6 +700,9 @@ firstFrame:
 	for i := 0; i < batch; i++ {
 		select {
 		case res = <-conn.writeFrameCh:
+			if !res.take() {
+				break
+			}
 			dfw = res.dfw
 			flags = dfw.Flags()
 			requestID = dfw.RequestID()
@@ -752,11 +755,6 @@ firstFrame:
 
 func (conn *Connection) abortRequestsWhenClosed() {
 
-	// if reconnect not enabled,
-	// no need to deal with conn.cachedRequests since they will fall into the same case anyway
-	if !conn.reconnect {
-		return
-	}
 	for _, request := range conn.cachedRequests {
 		request.result <- ErrConnAlreadyClosed
 	}
diff --git a/serveconn.go b/serveconn.go
index 50791ff..68beb72 100644
--- a/serveconn.go
+++ b/serveconn.go
@@ -310,6 +310,28 @@ type readFrameResult struct {
 type writeFrameRequest struct {
 	dfw    *defaultFrameWriter
 	result chan error
+	state  uint32 // accessed by atomic
+}
+
+const (
+	wfrQueued uint32 = iota
+	wfrTaken
+	wfrAbandoned
+)
+
+// take is called before dfw is used, it returns false if the request is abandoned.
+// The result of a taken request must be delivered.
+func (wfr *writeFrameRequest) take() bool {
+	return atomic.CompareAndSwapUint32(&wfr.state, wfrQueued, wfrTaken)
+}
+
+// abandon a queued request and return err, or the result if it's already taken,
+// dfw can't be reused before that.
+func (wfr *writeFrameRequest) abandon(err error) error {
+	if atomic.CompareAndSwapUint32(&wfr.state, wfrQueued, wfrAbandoned) {
+		return err
+	}
+	return <-wfr.result
 }
 
 // A gate lets two goroutines coordinate their activities.
@@ -462,13 +484,19 @@ var wfrPool = sync.Pool{New: func() interface{} {
 	return &writeFrameRequest{result: make(chan error, 1)}
 }}
 
-func (sc *serveconn) writeFrameBytes(dfw *defaultFrameWriter) (err error) {
+func newWriteFrameRequest(dfw *defaultFrameWriter) *writeFrameRequest {
 	wfr := wfrPool.Get().(*writeFrameRequest)
 	wfr.dfw = dfw
+	atomic.StoreUint32(&wfr.state, wfrQueued)
 	// just in case
 	if len(wfr.result) > 0 {
 		<-wfr.result
 	}
+	return wfr
+}
+
+func (sc *serveconn) writeFrameBytes(dfw *defaultFrameWriter) (err error) {
+	wfr := newWriteFrameRequest(dfw)
 
 	select {
 	case sc.writeFrameCh <- wfr:
@@ -494,7 +522,7 @@ func (sc *serveconn) writeFrameBytes(dfw *defaultFrameWriter) (err error) {
 
 			select {
 			case <-sc.ctx.Done():
-				return sc.ctx.Err()
+				return wfr.abandon(sc.ctx.Err())
 			}
 		}
 
@@ -526,7 +554,10 @@ func (sc *serveconn) writeFrameBytes(dfw *defaultFrameWriter) (err error) {
 		err = sc.collectWriteFrames(binding.WriteFrameChSize)
 		if err != nil {
 			l.Debug("sc.collectWriteFrames", zap.Uintptr("sc", uintptr(unsafe.Pointer(sc))), zap.Error(err))
-			return
+			for _, request := range sc.cachedRequests {
+				request.result <- err
+			}
+			return wfr.abandon(err)
 		}
 
 		err = sc.writeBuffers()
@@ -547,7 +578,7 @@ func (sc *serveconn) writeFrameBytes(dfw *defaultFrameWriter) (err error) {
 		wfrPool.Put(wfr)
 		return err
 	case <-sc.ctx.Done():
-		return sc.ctx.Err()
+		return wfr.abandon(sc.ctx.Err())
 	}
 
 }
@@ -643,6 +674,9 @@ func (sc *serveconn) collectWriteFrames(batch int) error {
 	for i := 0; i < batch; i++ {
 		select {
 		case res = <-sc.writeFrameCh:
+			if !res.take() {
+				break
+			}
 			dfw = res.dfw
 			flags = dfw.Flags()
 			requestID = dfw.RequestID()
@@ -683,7 +717,6 @@ func (sc *serveconn) collectWriteFrames(batch int) error {
 			sc.cachedBuffs = append(sc.cachedBuffs, dfw.GetWbuf())
 
 		case <-sc.ctx.Done():
-			// no need to deal with sc.cachedRequests since they will fall into the same case anyway
 			return sc.ctx.Err()
 		default:
 			return nil
-- 
2.43.0


From 55de9a41555c42b684161171979a1938d230cff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:24 +0000
Subject: [PATCH 18/53] fix: an id is never bound to a closed connection

SetID on a connection which is already untracked left an entry behind
that nothing removes: lookups yielded the closed connection and the next
SetID of that id looped forever. untrack also removed entries of others.
---
 server.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/server.go b/server.go
index 492d332..775fd99 100644
--- a/server.go
+++ b/server.go
@@ -481,6 +481,8 @@ check:
 		if !ok {
 			<-ch
 		}
+		// in case vsc was bound after it's untracked
+		srv.id2Conn[idx].CompareAndDelete(id, v)
 		l.Debug("trigger closeUntracked", zap.Uintptr("sc", uintptr(unsafe.Pointer(sc))), zap.Uintptr("vsc", uintptr(unsafe.Pointer(vsc))))
 
 		err := vsc.closeUntracked()
@@ -503,6 +505,11 @@ check:
 	}
 
 	ko = atomic.LoadUint64(&kickOrder)
+
+	// in case sc is untracked before it's bound
+	if sc.IsClosed() {
+		srv.id2Conn[idx].CompareAndDelete(id, sc)
+	}
 	return
 }
 
@@ -516,7 +523,7 @@ func (srv *Server) untrack(sc *serveconn, kicked bool) (bool, <-chan struct{}) {
 
 	id := sc.GetID()
 	if id != "" {
-		srv.id2Conn[idx].Delete(id)
+		srv.id2Conn[idx].CompareAndDelete(id, sc)
 	}
 	srv.activeConn[idx].Delete(sc)
 
-- 
2.43.0


From 9be2f2529fd91711c3e436c67813fd8f6745d204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:00 +0000
Subject: [PATCH 19/53] fix: a kick does not hang on a connection whose write
 failed

The writer which fails keeps the write lock and leaves it to Close to
release the others; Close waits for the kick callback, which waits for
the lock. Or it does not close at all since the kick is to do it.
---
 serveconn.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/serveconn.go b/serveconn.go
index 68beb72..792b438 100644
--- a/serveconn.go
+++ b/serveconn.go
@@ -635,6 +635,8 @@ func (sc *serveconn) writeBuffers() error {
 	if err != nil {
 
 		l.Debug("serveconn.writeBuffers", zap.Uintptr("sc", uintptr(unsafe.Pointer(sc))), zap.Error(err))
+		// wlock is not released anymore, so release the other writers, one of which may be OnKickCB
+		sc.cancelCtx()
 		// don't call sc.Close while inside OnKickCB
 		if !sc.IsClosed() {
 			sc.Close()
-- 
2.43.0


From d39a51f5a34ec5c5e368261ba05c0d6cdf656bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:29 +0000
Subject: [PATCH 20/53] fix: blocking requests do not lower the inflight count

The count was lowered after every blocking request although only
non-blocking requests raise it, so that after n blocking requests a
connection could have n inflight requests more than the limit.
---
 serveconn.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/serveconn.go b/serveconn.go
index 792b438..7c68852 100644
--- a/serveconn.go
+++ b/serveconn.go
@@ -199,7 +199,8 @@ func (sc *serveconn) serve() {
 
 			if res.readMore != nil {
 				func() {
-					defer sc.handleRequestPanic(res.f, time.Now(), inflightStreamsPtr)
+					// blocking requests are not counted as inflight
+					defer sc.handleRequestPanic(res.f, time.Now(), nil)
 					handler.ServeQRPC(sc.writer, res.f)
 				}()
 				res.readMore()
-- 
2.43.0


From 45c363fb1f9625d836927fdc9987fb7b4e9f98d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:14 +0000
Subject: [PATCH 21/53] fix: a codec working in place does not change what is
 sent uncoded

When the encoded payload is longer the original is sent without the codec
flag, but a codec which works in place, as recommended, had overwritten it.
---
 framewriter.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/framewriter.go b/framewriter.go
index ff65523..9b07db3 100644
--- a/framewriter.go
+++ b/framewriter.go
@@ -107,8 +107,9 @@ func (dfw *defaultFrameWriter) EndWrite() (err error) {
 			err = ErrNoCodec
 			return
 		}
-		var encodedPayload []byte
-		encodedPayload, err = codec.Encode(dfw.Payload())
+		// the codec may work in place, but the payload is needed if it grows
+		encodedPayload := append([]byte(nil), dfw.Payload()...)
+		encodedPayload, err = codec.Encode(encodedPayload)
 		if err != nil {
 			return
 		}
-- 
2.43.0


From c12ebc2790e0883a472ed09c72b5aa6128e428ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:22 +0000
Subject: [PATCH 22/53] fix: EndWriteCompressed does not make later frames of a
 stream coded

The codec flag stuck to the stream writer, so that every later frame was
encoded, or failed without a codec, although nobody asked for it.
---
 framewriter.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/framewriter.go b/framewriter.go
index 9b07db3..993d0f5 100644
--- a/framewriter.go
+++ b/framewriter.go
@@ -209,7 +209,12 @@ func (dsw *defaultStreamWriter) EndWrite(end bool) error {
 }
 
 func (dsw *defaultStreamWriter) EndWriteCompressed() (err error) {
-	return (*defaultFrameWriter)(dsw).EndWriteCompressed()
+	dfw := (*defaultFrameWriter)(dsw)
+	flags := dfw.Flags()
+	err = dfw.EndWriteCompressed()
+	// the flags of this frame must not stick to the next one
+	dfw.SetFlags(flags)
+	return
 }
 
 func (dsw *defaultStreamWriter) ResetFrame(reason Cmd) (err error) {
-- 
2.43.0


From 6acabbd49b7d701e5cced0cb3fb1e127429dca0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:14 +0000
Subject: [PATCH 23/53] fix: registering a route twice panics whatever the
 opaque byte

Handlers are stored by cmd.Routing() but the duplicate check looked up cmd.
---
 server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server.go b/server.go
index 775fd99..040a8ea 100644
--- a/server.go
+++ b/server.go
@@ -98,7 +98,7 @@ func (mux *ServeMux) Handle(cmd Cmd, handler Handler, middleware ...MiddlewareFu
 	if mux.m == nil {
 		mux.m = make(map[Cmd]Handler)
 	}
-	if _, exist := mux.m[cmd]; exist {
+	if _, exist := mux.m[cmd.Routing()]; exist {
 		panic("qrpc: multiple registrations for " + string(cmd))
 	}
 
-- 
2.43.0


From f7d620a430ae5fcb6832285ccae9abd7f7d22c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:34 +0000
Subject: [PATCH 24/53] fix: HandleFunc panics on a nil function

The nil check of Handle never sees a nil HandlerFunc, so that each request
of the command panicked instead of the registration.
---
 server.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/server.go b/server.go
index 040a8ea..2af9f1a 100644
--- a/server.go
+++ b/server.go
@@ -78,6 +78,10 @@ func NewServeMux() *ServeMux { return new(ServeMux) }
 
 // HandleFunc registers the handler function for the given pattern.
 func (mux *ServeMux) HandleFunc(cmd Cmd, handler func(FrameWriter, *RequestFrame), middleware ...MiddlewareFunc) {
+	if handler == nil {
+		panic("qrpc: nil handler")
+	}
+
 	mux.Handle(cmd, HandlerFunc(handler), middleware...)
 }
 
-- 
2.43.0


From d1d2dc7b25ee7754e85f3f30368061425d0f6c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:33 +0000
Subject: [PATCH 25/53] fix: SetThrottle and ClearThrottle may be used
 concurrently

Two concurrent ClearThrottle calls closed the same channel twice and two
concurrent SetThrottle calls left waiters on a channel nobody closes.
---
 server.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/server.go b/server.go
index 2af9f1a..86c7db6 100644
--- a/server.go
+++ b/server.go
@@ -142,6 +142,7 @@ type Server struct {
 
 	id2Conn          []sync.Map
 	activeConn       []sync.Map // for better iterate when write, map[*serveconn]struct{}
+	throttleMu       sync.Mutex // serializes SetThrottle and ClearThrottle
 	throttle         []atomic.Value
 	closeRateLimiter []ratelimit.Limiter
 
@@ -650,6 +651,9 @@ func (srv *Server) waitThrottle(idx int, doneCh <-chan struct{}) {
 
 // SetThrottle sets throttle on
 func (srv *Server) SetThrottle(idx int) {
+	srv.throttleMu.Lock()
+	defer srv.throttleMu.Unlock()
+
 	v := srv.throttle[idx].Load()
 	if v != nil {
 		// already on,do nothing
@@ -662,6 +666,9 @@ func (srv *Server) SetThrottle(idx int) {
 
 // ClearThrottle clears throttle onff
 func (srv *Server) ClearThrottle(idx int) {
+	srv.throttleMu.Lock()
+	defer srv.throttleMu.Unlock()
+
 	v := srv.throttle[idx].Load()
 	if v == nil {
 		return
-- 
2.43.0


From 0c11f73ef9d6384d87bea44089cec452dffa7dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:22 +0000
Subject: [PATCH 26/53] fix: a client does not allocate what a frame merely
 announces

A client has no limit on frame sizes, so 16 bytes of a broken or hostile
server made it allocate up to 4 GB. Frames above DefaultMaxFrameSize are now
read into a buffer which grows with what arrives.
---
 framereader.go | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/framereader.go b/framereader.go
index 225d89f..da47461 100644
--- a/framereader.go
+++ b/framereader.go
@@ -111,8 +111,7 @@ func (dfr *defaultFrameReader) readFrame() (*Frame, error) {
 	frame := &Frame{RequestID: requestID, Cmd: cmd, Flags: flags}
 
 	if size > 12 {
-		payload := make([]byte, size-12)
-		err = dfr.ReadBytesWithMaxTimeout(payload, payloadReadMaxTimeoutSecond)
+		payload, err := dfr.readPayload(int(size - 12))
 		if err != nil {
 			return nil, err
 		}
@@ -130,3 +129,33 @@ func (dfr *defaultFrameReader) readFrame() (*Frame, error) {
 
 	return frame, nil
 }
+
+func (dfr *defaultFrameReader) readPayload(size int) ([]byte, error) {
+
+	if dfr.maxFrameSize > 0 || size <= DefaultMaxFrameSize {
+		payload := make([]byte, size)
+		err := dfr.ReadBytesWithMaxTimeout(payload, payloadReadMaxTimeoutSecond)
+		return payload, err
+	}
+
+	// nothing limits size, so only allocate in proportion to what really arrives
+	payload := make([]byte, DefaultMaxFrameSize)
+	offset := 0
+	for {
+		err := dfr.ReadBytesWithMaxTimeout(payload[offset:], payloadReadMaxTimeoutSecond)
+		if err != nil {
+			return nil, err
+		}
+		offset = len(payload)
+		if offset == size {
+			return payload, nil
+		}
+		n := 2 * offset
+		if n > size {
+			n = size
+		}
+		grown := make([]byte, n)
+		copy(grown, payload)
+		payload = grown
+	}
+}
-- 
2.43.0


From 94e68660ab90f1fb74210d0197755c39af5bd873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:00 +0000
Subject: [PATCH 27/53] fix: a balanced call falls back to every active
 connection

Only the first active connection was tried, so that a call failed when this
one was down too although another one worked.
---
 api.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/api.go b/api.go
index 93fab82..5497626 100644
--- a/api.go
+++ b/api.go
@@ -225,10 +225,11 @@ func (api *defaultAPI) callViaActiveConns(ctx context.Context, cmd Cmd, payload
 			idx := v.(int)
 			api.safeCloseDeleteConn(idx, ac)
 			result, err = api.callWithoutConn(ctx, idx, cmd, payload)
-		} else {
-			result, err = resp.GetFrameWithContext(ctx)
+			// try the next one if nothing was sent
+			return err != nil && err != ErrStreamClosed && ctx.Err() == nil
 		}
 
+		result, err = resp.GetFrameWithContext(ctx)
 		return false
 	})
 
-- 
2.43.0


From 60e765818b2993997f9c755f45bd22ede2692e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:30 +0000
Subject: [PATCH 28/53] fix: a balanced call whose context has ended is not
 sent again

When the context of Call ended while the chosen endpoint was handling the
request, the same request was sent to another endpoint, whose answer nobody
waited for.
---
 api.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/api.go b/api.go
index 5497626..b5dae65 100644
--- a/api.go
+++ b/api.go
@@ -81,7 +81,7 @@ func (api *defaultAPI) Call(ctx context.Context, cmd Cmd, payload []byte) (resul
 
 	idx := api.getIdx()
 	result, err = api.callViaIdx(ctx, idx, cmd, payload)
-	if err != nil {
+	if err != nil && ctx.Err() == nil {
 		result, err = api.callViaActiveConns(ctx, cmd, payload)
 	}
 
-- 
2.43.0


From 8230dabdaeaef545bedc0276eacc881e58c1966f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:09 +0000
Subject: [PATCH 29/53] fix: a side which reset its stream still receives the
 rest of it

A reset ends one's own side of a stream: End of a channel sender is one. What the peer
sends on it was dropped since f570eea.
---
 stream.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/stream.go b/stream.go
index a51faa2..3cf0d2b 100644
--- a/stream.go
+++ b/stream.go
@@ -185,8 +185,6 @@ func (s *Stream) AddOutFrame(requestID uint64, flags FrameFlag) bool {
 
 	if isRst {
 		oldClosedSelf := atomic.SwapInt32(&s.closedSelf, 1)
-		// whoever resets a stream need not read the rest of it
-		s.reset()
 		// no need to send rst if both sides has already closed before this turn
 		if atomic.LoadInt32(&s.closedPeer) != 0 {
 			s.afterDone()
-- 
2.43.0


From d471af3731b6a5c87654d2567617d7bb41ee42a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:48 +0000
Subject: [PATCH 30/53] fix: a channel's Receive decodes the message when the
 command is not wanted

The serving side left msg untouched when cmd was nil.
---
 channel/servetransport.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/channel/servetransport.go b/channel/servetransport.go
index 89e03fc..310c8b5 100644
--- a/channel/servetransport.go
+++ b/channel/servetransport.go
@@ -87,7 +87,7 @@ func (r *serveReceiver) Receive(ctx context.Context, cmd *qrpc.Cmd, msg interfac
 
 	if cmd != nil {
 		*cmd = frame.Cmd
-		err = Unmarshal(frame.Payload, msg)
 	}
+	err = Unmarshal(frame.Payload, msg)
 	return
 }
-- 
2.43.0


From 21656b3fbc73d9d70f99be6d0e4bce49a437999e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:48 +0000
Subject: [PATCH 31/53] fix: a channel's last message ends the initiator's side

end was ignored for every message but the first one.
---
 channel/clienttransport.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/channel/clienttransport.go b/channel/clienttransport.go
index dd7d0d0..60de0e9 100644
--- a/channel/clienttransport.go
+++ b/channel/clienttransport.go
@@ -88,7 +88,7 @@ func (s *clientSender) Send(ctx context.Context, cmd qrpc.Cmd, msg interface{},
 
 	s.streamWriter.StartWrite(cmd)
 	s.streamWriter.WriteBytes(bytes)
-	err = s.streamWriter.EndWrite(false)
+	err = s.streamWriter.EndWrite(end)
 
 	return
 }
-- 
2.43.0


From 0b6a726827cb7dbc7344bed81b449f4a741db74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:36 +0000
Subject: [PATCH 32/53] fix: a slow peer is not disconnected over tls or
 websocket

A write deadline which expires corrupts a tls or websocket connection, so
writes must not be cut into slices of CtxCheckMaxInterval there. The deadline
is now that of the timeout, and there is none without a timeout: closing the
connection ends a blocked write.
---
 writer.go | 60 +++++++++++++++----------------------------------------
 1 file changed, 16 insertions(+), 44 deletions(-)

diff --git a/writer.go b/writer.go
index f1e9fcb..08b989a 100644
--- a/writer.go
+++ b/writer.go
@@ -33,11 +33,10 @@ func NewWriterWithTimeout(ctx context.Context, conn net.Conn, timeout int) *Writ
 // Write writes bytes
 func (w *Writer) Write(bytes []byte) (int, error) {
 	var (
-		endTime      time.Time
-		writeTimeout time.Duration
-		offset       int
-		n            int
-		err          error
+		endTime time.Time
+		offset  int
+		n       int
+		err     error
 	)
 
 	timeout := w.timeout
@@ -47,27 +46,14 @@ func (w *Writer) Write(bytes []byte) (int, error) {
 	size := len(bytes)
 
 	for {
-		if timeout > 0 {
-			writeTimeout = endTime.Sub(time.Now())
-			if writeTimeout > CtxCheckMaxInterval {
-				writeTimeout = CtxCheckMaxInterval
-			}
-		} else {
-			writeTimeout = CtxCheckMaxInterval
-		}
-
-		w.conn.SetWriteDeadline(time.Now().Add(writeTimeout))
+		// a write cut off by a deadline can't be resumed over tls or websocket,
+		// so there is none but the timeout; closing conn ends the write
+		w.conn.SetWriteDeadline(endTime)
 
 		n, err = w.conn.Write(bytes[offset:])
 		offset += n
 		if err != nil {
-			if opError, ok := err.(*net.OpError); ok && opError.Timeout() {
-				if timeout > 0 && time.Now().After(endTime) {
-					return offset, err
-				}
-			} else {
-				return offset, err
-			}
+			return offset, err
 		}
 		if offset >= size {
 			return offset, nil
@@ -84,11 +70,10 @@ func (w *Writer) Write(bytes []byte) (int, error) {
 
 func (w *Writer) writeBuffers(buffs *net.Buffers) (int64, error) {
 	var (
-		endTime      time.Time
-		writeTimeout time.Duration
-		offset       int64
-		n            int64
-		err          error
+		endTime time.Time
+		offset  int64
+		n       int64
+		err     error
 	)
 
 	timeout := w.timeout
@@ -101,27 +86,14 @@ func (w *Writer) writeBuffers(buffs *net.Buffers) (int64, error) {
 	}
 
 	for {
-		if timeout > 0 {
-			writeTimeout = endTime.Sub(time.Now())
-			if writeTimeout > CtxCheckMaxInterval {
-				writeTimeout = CtxCheckMaxInterval
-			}
-		} else {
-			writeTimeout = CtxCheckMaxInterval
-		}
-
-		w.conn.SetWriteDeadline(time.Now().Add(writeTimeout))
+		// a write cut off by a deadline can't be resumed over tls or websocket,
+		// so there is none but the timeout; closing conn ends the write
+		w.conn.SetWriteDeadline(endTime)
 
 		n, err = buffs.WriteTo(w.conn)
 		offset += n
 		if err != nil {
-			if opError, ok := err.(*net.OpError); ok && opError.Timeout() {
-				if timeout > 0 && time.Now().After(endTime) {
-					return offset, err
-				}
-			} else {
-				return offset, err
-			}
+			return offset, err
 		}
 		if offset >= size {
 			return offset, nil
-- 
2.43.0


From f57131fa5b90a0e4d88acc994417637de5994f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:26 +0000
Subject: [PATCH 33/53] fix: pass TLSConf when reconnecting

NewConnectionWithReconnect and reconnects dialled without the configured
TLSConf.
---
 clientconn.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/clientconn.go b/clientconn.go
index 458fe60..7e843b9 100644
--- a/clientconn.go
+++ b/clientconn.go
@@ -165,9 +165,9 @@ func NewConnectionWithReconnect(addrs []string, conf ConnectionConfig, f SubFunc
 		err error
 	)
 	if conf.OverlayNetwork != nil {
-		rwc, err = conf.OverlayNetwork(copy[len(copy)-1], DialConfig{DialTimeout: conf.DialTimeout, WBufSize: conf.WBufSize, RBufSize: conf.RBufSize})
+		rwc, err = conf.OverlayNetwork(copy[len(copy)-1], DialConfig{DialTimeout: conf.DialTimeout, WBufSize: conf.WBufSize, RBufSize: conf.RBufSize, TLSConf: conf.TLSConf})
 	} else {
-		rwc, err = dialTCP(copy[len(copy)-1], DialConfig{DialTimeout: conf.DialTimeout, WBufSize: conf.WBufSize, RBufSize: conf.RBufSize})
+		rwc, err = dialTCP(copy[len(copy)-1], DialConfig{DialTimeout: conf.DialTimeout, WBufSize: conf.WBufSize, RBufSize: conf.RBufSize, TLSConf: conf.TLSConf})
 	}
 	if err != nil {
 		l.Error("initconnect DialTimeout", zap.Error(err))
@@ -282,9 +282,9 @@ func (conn *Connection) connect() error {
 			err error
 		)
 		if conn.conf.OverlayNetwork != nil {
-			rwc, err = conn.conf.OverlayNetwork(addr, DialConfig{DialTimeout: conn.conf.DialTimeout, WBufSize: conn.conf.WBufSize, RBufSize: conn.conf.RBufSize})
+			rwc, err = conn.conf.OverlayNetwork(addr, DialConfig{DialTimeout: conn.conf.DialTimeout, WBufSize: conn.conf.WBufSize, RBufSize: conn.conf.RBufSize, TLSConf: conn.conf.TLSConf})
 		} else {
-			rwc, err = dialTCP(addr, DialConfig{DialTimeout: conn.conf.DialTimeout, WBufSize: conn.conf.WBufSize, RBufSize: conn.conf.RBufSize})
+			rwc, err = dialTCP(addr, DialConfig{DialTimeout: conn.conf.DialTimeout, WBufSize: conn.conf.WBufSize, RBufSize: conn.conf.RBufSize, TLSConf: conn.conf.TLSConf})
 		}
 
 		if err != nil {
-- 
2.43.0


From 9e31f5d4ef72ca150912baf1d0cb001381050f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:56 +0000
Subject: [PATCH 34/53] fix: the dial timeout covers the tls and websocket
 handshakes

A server which accepts connections without ever answering made the
constructors wait forever in spite of DialTimeout.
---
 clientconn.go     | 4 ++++
 ws/client/conn.go | 3 ++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/clientconn.go b/clientconn.go
index 7e843b9..4fce673 100644
--- a/clientconn.go
+++ b/clientconn.go
@@ -138,11 +138,15 @@ func dialTCP(addr string, dialConfig DialConfig) (rwc net.Conn, err error) {
 
 	if dialConfig.TLSConf != nil {
 		tlsConn := tls.Client(rwc, dialConfig.TLSConf)
+		if dialConfig.DialTimeout > 0 {
+			rwc.SetDeadline(time.Now().Add(dialConfig.DialTimeout))
+		}
 		err = tlsConn.Handshake()
 		if err != nil {
 			rwc.Close()
 			return
 		}
+		rwc.SetDeadline(time.Time{})
 
 		rwc = tlsConn
 	}
diff --git a/ws/client/conn.go b/ws/client/conn.go
index ccca656..8500cc4 100644
--- a/ws/client/conn.go
+++ b/ws/client/conn.go
@@ -44,7 +44,8 @@ func DialConn(address string, dialConfig qrpc.DialConfig) (nc net.Conn, err erro
 			}
 			return
 		},
-		TLSClientConfig: dialConfig.TLSConf,
+		TLSClientConfig:  dialConfig.TLSConf,
+		HandshakeTimeout: dialConfig.DialTimeout,
 	}
 	if dialConfig.TLSConf != nil {
 		wc, resp, err = dialer.Dial("wss://"+address+"/qrpc", http.Header{})
-- 
2.43.0


From 50380f05bd2b225527b7afbf8d3b942d38ca0e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:20 +0000
Subject: [PATCH 35/53] fix: close websocket connections nobody accepts on
 shutdown

Closing the overlay listener left connections open which were not upgraded
yet or were waiting to be accepted.
---
 ws/server/overlay.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/ws/server/overlay.go b/ws/server/overlay.go
index 2f391bb..31b9bfc 100644
--- a/ws/server/overlay.go
+++ b/ws/server/overlay.go
@@ -53,7 +53,11 @@ func newOverlay(l net.Listener, tlsConfig *tls.Config) (o *qrpcOverWS) {
 
 		select {
 		case o.acceptCh <- c:
+			if o.ctx.Err() != nil {
+				o.drain()
+			}
 		case <-o.ctx.Done():
+			c.Close()
 		}
 
 	})
@@ -90,7 +94,22 @@ func (o *qrpcOverWS) Accept() (conn net.Conn, err error) {
 
 func (o *qrpcOverWS) Close() error {
 	o.cancelFunc()
-	return o.l.Close()
+	err := o.l.Close()
+	o.httpServer.Close() // connections which are not upgraded yet
+	o.drain()
+	return err
+}
+
+// drain closes connections nobody will accept
+func (o *qrpcOverWS) drain() {
+	for {
+		select {
+		case c := <-o.acceptCh:
+			c.Close()
+		default:
+			return
+		}
+	}
 }
 
 func (o *qrpcOverWS) Addr() (addr net.Addr) {
-- 
2.43.0


From c7129278467606e1167022e65076e5b2167eec8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:27 +0000
Subject: [PATCH 36/53] fix: generated code of sub services compiles

The accessor of a sub service had no usable name and result, and
ssInterface was declared once per method.
---
 codegen/generator.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/codegen/generator.go b/codegen/generator.go
index d761310..b5b2364 100644
--- a/codegen/generator.go
+++ b/codegen/generator.go
@@ -212,8 +212,8 @@ func (g *Generator) Generate() {
 		if ns == "" {
 			continue
 		}
-		g.P("func (c ", unexport(g.serviceName), "Client) ", ns, "Client {")
-		g.P("	return ", unexport(g.serviceName), ns, "{c.Client}")
+		g.P("func (c ", unexport(g.serviceName), "Client) ", ns, "Client() ", g.serviceName, ns, "Client {")
+		g.P("	return ", unexport(g.serviceName), ns, "Client{c.Client}")
 		g.P("}")
 		g.P()
 	}
@@ -310,8 +310,8 @@ func (g *Generator) Generate() {
 		}
 
 		g.P("case ", strconv.Quote(ns), ":")
+		g.P("	ssInterface := ss.(", g.serviceName, ns, "Client)")
 		for name, method := range methods {
-			g.P("	ssInterface := ss.(", g.serviceName, ns, "Client)")
 			inTypes := util.FuncInputTypes(method)
 			outTypes := util.FuncInputTypes(method)
 			inTypePtrIsMarshaler := reflect.PtrTo(inTypes[1]).Implements(marshalerType)
-- 
2.43.0


From 84639acfdfa7a5b8f17cee7b0fc6b7d460f47093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:27 +0000
Subject: [PATCH 37/53] fix: use package aliases everywhere in generated code

The aliases differ from the package names for a second generator in a
process and when a user's package has the same name.
---
 codegen/generator.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/codegen/generator.go b/codegen/generator.go
index b5b2364..0f331dd 100644
--- a/codegen/generator.go
+++ b/codegen/generator.go
@@ -269,7 +269,7 @@ func (g *Generator) Generate() {
 	g.P()
 	g.P("func (m *", unexport(g.serviceName), "ServiceMux) Register(s ", g.serviceName, "Service) {")
 	for name, method := range g.services[""] {
-		g.P("m.callback[", codegenPkgAlias, ".FQMethod(\"\",", strconv.Quote(name), ")] = func(ctx context.Context, inBytes []byte) (outBytes []byte, err error) {")
+		g.P("m.callback[", codegenPkgAlias, ".FQMethod(\"\",", strconv.Quote(name), ")] = func(ctx ", contextPkgAlias, ".Context, inBytes []byte) (outBytes []byte, err error) {")
 		inTypes := util.FuncInputTypes(method)
 		outTypes := util.FuncInputTypes(method)
 		inTypePtrIsMarshaler := reflect.PtrTo(inTypes[1]).Implements(marshalerType)
@@ -316,7 +316,7 @@ func (g *Generator) Generate() {
 			outTypes := util.FuncInputTypes(method)
 			inTypePtrIsMarshaler := reflect.PtrTo(inTypes[1]).Implements(marshalerType)
 			outTypePtrIsMarshaler := reflect.PtrTo(outTypes[0]).Implements(marshalerType)
-			g.P("	m.callback[", codegenPkgAlias, ".FQMethod(", strconv.Quote(ns), ",", strconv.Quote(name), ")] = func(ctx context.Context, inBytes []byte) (outBytes []byte, err error) {")
+			g.P("	m.callback[", codegenPkgAlias, ".FQMethod(", strconv.Quote(ns), ",", strconv.Quote(name), ")] = func(ctx ", contextPkgAlias, ".Context, inBytes []byte) (outBytes []byte, err error) {")
 			if inTypes[1].PkgPath() != "" {
 				alias := allPkgs[inTypes[1].PkgPath()]
 				g.P("		var input ", alias, ".", inTypes[1].Name())
@@ -348,7 +348,7 @@ func (g *Generator) Generate() {
 	g.P("	}")
 	g.P("}")
 	g.P()
-	g.P("func (m *", unexport(g.serviceName), "ServiceMux) Mux() *qrpc.ServeMux {")
+	g.P("func (m *", unexport(g.serviceName), "ServiceMux) Mux() *", qrpcPkgAlias, ".ServeMux {")
 	g.P("	if m.mux != nil {")
 	g.P("		return m.mux")
 	g.P("	}")
-- 
2.43.0


From 56def4f7eb3d1f7ec84604fb1bc6ed4f5c444024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:27 +0000
Subject: [PATCH 38/53] fix: encode the output of generated services by its own
 type

The server looked at the input type, the client at the output type.
---
 codegen/generator.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/codegen/generator.go b/codegen/generator.go
index 0f331dd..c490b48 100644
--- a/codegen/generator.go
+++ b/codegen/generator.go
@@ -271,7 +271,7 @@ func (g *Generator) Generate() {
 	for name, method := range g.services[""] {
 		g.P("m.callback[", codegenPkgAlias, ".FQMethod(\"\",", strconv.Quote(name), ")] = func(ctx ", contextPkgAlias, ".Context, inBytes []byte) (outBytes []byte, err error) {")
 		inTypes := util.FuncInputTypes(method)
-		outTypes := util.FuncInputTypes(method)
+		outTypes := util.FuncOutputTypes(method)
 		inTypePtrIsMarshaler := reflect.PtrTo(inTypes[1]).Implements(marshalerType)
 		outTypePtrIsMarshaler := reflect.PtrTo(outTypes[0]).Implements(marshalerType)
 		if inTypes[1].PkgPath() != "" {
@@ -313,7 +313,7 @@ func (g *Generator) Generate() {
 		g.P("	ssInterface := ss.(", g.serviceName, ns, "Client)")
 		for name, method := range methods {
 			inTypes := util.FuncInputTypes(method)
-			outTypes := util.FuncInputTypes(method)
+			outTypes := util.FuncOutputTypes(method)
 			inTypePtrIsMarshaler := reflect.PtrTo(inTypes[1]).Implements(marshalerType)
 			outTypePtrIsMarshaler := reflect.PtrTo(outTypes[0]).Implements(marshalerType)
 			g.P("	m.callback[", codegenPkgAlias, ".FQMethod(", strconv.Quote(ns), ",", strconv.Quote(name), ")] = func(ctx ", contextPkgAlias, ".Context, inBytes []byte) (outBytes []byte, err error) {")
-- 
2.43.0


From afa70315463a8c73ece35e31e4c8fa152538925e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:27 +0000
Subject: [PATCH 39/53] fix: import json in generated code only when it is used

Services with nothing but Marshalers did not compile.
---
 codegen/generator.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/codegen/generator.go b/codegen/generator.go
index c490b48..22f0bc1 100644
--- a/codegen/generator.go
+++ b/codegen/generator.go
@@ -123,10 +123,17 @@ func (g *Generator) generatePkg() {
 func (g *Generator) generateImports() {
 
 	allPkgs = make(map[string]string)
+	pkgs := []string{contextPkg, qrpcPkg, codegenPkg, fmtPkg}
+	needJSON := false
 	for _, methods := range g.services {
 		for _, method := range methods {
 			inTypes := util.FuncInputTypes(method)
 			outTypes := util.FuncOutputTypes(method)
+			for _, t := range []reflect.Type{inTypes[1], outTypes[0]} {
+				if !reflect.PtrTo(t).Implements(marshalerType) {
+					needJSON = true
+				}
+			}
 			inTypePkg := inTypes[1].PkgPath()
 			outTypePkg := outTypes[0].PkgPath()
 			if inTypePkg != "" {
@@ -144,7 +151,10 @@ func (g *Generator) generateImports() {
 		}
 	}
 
-	for _, pkg := range []string{contextPkg, qrpcPkg, codegenPkg, fmtPkg, jsonPkg} {
+	if needJSON {
+		pkgs = append(pkgs, jsonPkg)
+	}
+	for _, pkg := range pkgs {
 		if _, ok := allPkgs[pkg]; !ok {
 			allPkgs[pkg] = generator.RegisterUniquePackageName(g.pkgLastName(pkg), nil)
 		}
-- 
2.43.0


From 6e4d03bb4abe7f8950eb9b957b8dd3bce07eb80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:27 +0000
Subject: [PATCH 40/53] fix: keep package aliases apart from identifiers of
 generated code

A user's package named ctx, input, s... was shadowed.
---
 codegen/generator.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/codegen/generator.go b/codegen/generator.go
index 22f0bc1..190b220 100644
--- a/codegen/generator.go
+++ b/codegen/generator.go
@@ -112,6 +112,17 @@ var (
 	allPkgs         map[string]string
 )
 
+func init() {
+	// identifiers used by the generated code must not be shadowed by an imported package
+	for _, name := range []string{
+		"addrs", "c", "cc", "conf", "ctx", "err", "inBytes", "input", "m", "mux", "ns",
+		"outBytes", "output", "s", "ss", "ssInterface",
+		"byte", "error", "make", "map", "nil", "panic", "string",
+	} {
+		generator.RegisterUniquePackageName(name, nil)
+	}
+}
+
 func (g *Generator) generatePkg() {
 	dir, err := os.Getwd()
 	if err != nil {
-- 
2.43.0


From dbf678babb00b5dcef7beb4244696ea958fa7681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:27 +0000
Subject: [PATCH 41/53] fix: generated clients can have a method named Client

It collided with the embedded field.
---
 codegen/generator.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/codegen/generator.go b/codegen/generator.go
index 190b220..ca944ba 100644
--- a/codegen/generator.go
+++ b/codegen/generator.go
@@ -216,7 +216,7 @@ func (g *Generator) Generate() {
 	// struct
 	structName := unexport(g.serviceName) + "Client"
 	g.P("type ", structName, " struct {")
-	g.P("	*", codegenPkgAlias, ".Client")
+	g.P("	client *", codegenPkgAlias, ".Client")
 	g.P("}")
 	g.P()
 	g.P("func New", g.serviceName, "Client(addrs []string, conf ", qrpcPkgAlias, ".ConnectionConfig) ", g.serviceName, "Client {")
@@ -234,7 +234,7 @@ func (g *Generator) Generate() {
 			continue
 		}
 		g.P("func (c ", unexport(g.serviceName), "Client) ", ns, "Client() ", g.serviceName, ns, "Client {")
-		g.P("	return ", unexport(g.serviceName), ns, "Client{c.Client}")
+		g.P("	return ", unexport(g.serviceName), ns, "Client{c.client}")
 		g.P("}")
 		g.P()
 	}
@@ -255,7 +255,7 @@ func (g *Generator) Generate() {
 
 		// struct
 		g.P("type ", unexport(g.serviceName), ns, "Client struct {")
-		g.P("	*", codegenPkgAlias, ".Client")
+		g.P("	client *", codegenPkgAlias, ".Client")
 		g.P("}")
 		g.P()
 
@@ -420,7 +420,7 @@ func (g *Generator) generateClientMethod(ns, name string, method reflect.Value)
 	}
 
 	g.P("func (c ", unexport(g.serviceName), ns, "Client)", name, "(ctx ", contextPkgAlias, ".Context, input ", inFQType, ") (output ", outFQType, ") {")
-	g.P("	cc := c.Client")
+	g.P("	cc := c.client")
 	if inTypePtrIsMarshaler {
 		g.P("	inBytes, err := input.Marshal()")
 	} else {
-- 
2.43.0


From 819f98416eb8c0719341123c6ad291402842435a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:42 +0000
Subject: [PATCH 42/53] fix: SetReadTimeout is called while frames are read

The timeout was written and read without synchronization.
---
 reader.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/reader.go b/reader.go
index 0203bfa..46f3038 100644
--- a/reader.go
+++ b/reader.go
@@ -7,14 +7,15 @@ import (
 	"io"
 	"net"
 	"sync"
+	"sync/atomic"
 	"time"
 )
 
 // Reader read data from socket
 type Reader struct {
+	timeout int64 // accessed by atomic
 	conn    net.Conn
 	reader  *bufio.Reader
-	timeout int
 	ctx     context.Context
 }
 
@@ -42,7 +43,7 @@ func NewReaderWithTimeout(ctx context.Context, conn net.Conn, timeout int) *Read
 
 	bufReader := bufPool.Get().(*bufio.Reader)
 	bufReader.Reset(conn)
-	return &Reader{ctx: ctx, conn: conn, reader: bufReader, timeout: timeout}
+	return &Reader{ctx: ctx, conn: conn, reader: bufReader, timeout: int64(timeout)}
 }
 
 // Finalize is called when no longer used
@@ -54,7 +55,7 @@ func (r *Reader) Finalize() {
 
 // SetReadTimeout allows modify timeout for read
 func (r *Reader) SetReadTimeout(timeout int) {
-	r.timeout = timeout
+	atomic.StoreInt64(&r.timeout, int64(timeout))
 }
 
 // ReadUint32 read uint32 from socket
@@ -80,7 +81,7 @@ func (r *Reader) ReadBytesWithMaxTimeout(bytes []byte, maxTimeoutSecond int) (er
 		offset  int
 		n       int
 	)
-	timeout := r.timeout
+	timeout := int(atomic.LoadInt64(&r.timeout))
 	if maxTimeoutSecond > 0 && timeout > maxTimeoutSecond {
 		timeout = maxTimeoutSecond
 	}
-- 
2.43.0


From c660e2d5366e7e0fe0c9f3809b49386ebb5426c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:08 +0000
Subject: [PATCH 43/53] fix: a connection is complete before WalkConn can find
 it

Its reader and its count of users were set up afterwards: ReaderConfig()
crashed, writes failed as if the connection was closed, or released the
streams of the open connection.
---
 serveconn.go | 10 ----------
 server.go    | 13 +++++++++++++
 2 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/serveconn.go b/serveconn.go
index 7c68852..368c1ad 100644
--- a/serveconn.go
+++ b/serveconn.go
@@ -163,18 +163,8 @@ func (sc *serveconn) serve() {
 	}()
 
 	ctx := sc.ctx
-	{
-		var maxFrameSize int
-		if binding.MaxFrameSize > 0 {
-			maxFrameSize = binding.MaxFrameSize
-		} else {
-			maxFrameSize = DefaultMaxFrameSize
-		}
-		sc.reader = newFrameReaderWithMFS(ctx, sc.rwc, binding.DefaultReadTimeout, binding.Codec, maxFrameSize)
-	}
 	sc.writer = newFrameWriter(sc) // only used by blocking mode
 
-	sc.inflight = 1
 	util.GoFunc(&sc.wg, func() {
 		sc.readFrames()
 	})
diff --git a/server.go b/server.go
index 86c7db6..854965f 100644
--- a/server.go
+++ b/server.go
@@ -447,6 +447,7 @@ func (srv *Server) newConn(ctx context.Context, rwc net.Conn, idx int) (sc *serv
 		rwc:            rwc,
 		idx:            idx,
 		untrackedCh:    make(chan struct{}),
+		inflight:       1, // for the reading goroutine
 		cs:             &ConnStreams{},
 		readFrameCh:    make(chan readFrameResult, srv.bindings[idx].ReadFrameChSize),
 		writeFrameCh:   make(chan *writeFrameRequest, srv.bindings[idx].WriteFrameChSize),
@@ -461,6 +462,18 @@ func (srv *Server) newConn(ctx context.Context, rwc net.Conn, idx int) (sc *serv
 	sc.ctx = ctx
 	sc.bytesWriter = NewWriterWithTimeout(ctx, rwc, srv.bindings[idx].DefaultWriteTimeout)
 
+	// everything must be there once the connection can be found
+	{
+		binding := srv.bindings[idx]
+		var maxFrameSize int
+		if binding.MaxFrameSize > 0 {
+			maxFrameSize = binding.MaxFrameSize
+		} else {
+			maxFrameSize = DefaultMaxFrameSize
+		}
+		sc.reader = newFrameReaderWithMFS(ctx, rwc, binding.DefaultReadTimeout, binding.Codec, maxFrameSize)
+	}
+
 	srv.activeConn[idx].Store(sc, struct{}{})
 
 	return sc
-- 
2.43.0


From 3039eaa565ad2ebc170d86acf85edfc3c80bdb68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:09 +0000
Subject: [PATCH 44/53] fix: qrpcurl with the push flag does not wait for a
 response

Request returns no Response for pushed frames, GetFrame on it panicked.
---
 tool/qrpcurl/main.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tool/qrpcurl/main.go b/tool/qrpcurl/main.go
index a0932bc..daa3ee2 100644
--- a/tool/qrpcurl/main.go
+++ b/tool/qrpcurl/main.go
@@ -92,6 +92,11 @@ func main() {
 			fmt.Println(payload)
 			fmt.Println("")
 
+			if resp == nil {
+				// push flag, there's no response
+				return
+			}
+
 			frame, err := resp.GetFrame()
 			if err != nil {
 				fmt.Println("get response fail:", err)
-- 
2.43.0


From fa41f763b776bfe4c2e06793c3ef456bca70664f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:01 +0000
Subject: [PATCH 45/53] fix: a listener which fails to close does not keep the
 server running

Shutdown returned the error of the first such listener without stopping anything
else, and did so whenever it was called again.
---
 server.go | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/server.go b/server.go
index 854965f..39424fb 100644
--- a/server.go
+++ b/server.go
@@ -557,19 +557,16 @@ func (srv *Server) untrack(sc *serveconn, kicked bool) (bool, <-chan struct{}) {
 // Shutdown gracefully shutdown the server
 func (srv *Server) Shutdown() error {
 
+	var lnerr error
+
 	srv.mu.Lock()
 	if srv.done {
 		srv.mu.Unlock()
 		goto done
 	}
 
-	{
-		lnerr := srv.closeListenersLocked()
-		if lnerr != nil {
-			srv.mu.Unlock()
-			return lnerr
-		}
-	}
+	// a listener which fails to close must not keep the rest running
+	lnerr = srv.closeListenersLocked()
 
 	srv.done = true
 	srv.mu.Unlock()
@@ -583,7 +580,7 @@ func (srv *Server) Shutdown() error {
 done:
 	srv.wg.Wait()
 
-	return nil
+	return lnerr
 }
 
 // OnShutdown registers f to be called when shutdown
@@ -642,8 +639,8 @@ func (srv *Server) closeListenersLocked() (err error) {
 		if ln == nil {
 			continue
 		}
-		if err = ln.Close(); err != nil {
-			return
+		if cerr := ln.Close(); cerr != nil && err == nil {
+			err = cerr
 		}
 		srv.listeners[idx] = nil
 	}
-- 
2.43.0


From 67a81b528f88b78cbff95c5ff15885aa04c531be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:02 +0000
Subject: [PATCH 46/53] fix: close accepted connections which cannot be used

A connection without the methods of TCPConn was reported as an error and leaked.
---
 server.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/server.go b/server.go
index 39424fb..e1d365d 100644
--- a/server.go
+++ b/server.go
@@ -401,7 +401,8 @@ func (ln *TCPKeepAliveListener) Accept() (c net.Conn, err error) {
 		ok bool
 	)
 	if tc, ok = c.(TCPConn); !ok {
-		err = ErrListenerAcceptReturnType
+		c.Close()
+		c, err = nil, ErrListenerAcceptReturnType
 		return
 	}
 
-- 
2.43.0


From f86741647103f2827dd8da02fb4488e2b65a8449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:03 +0000
Subject: [PATCH 47/53] fix: a failed ListenAll leaves nothing listening

The listeners opened before the failing one stayed open, out of reach.
---
 server.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/server.go b/server.go
index e1d365d..ffcb80f 100644
--- a/server.go
+++ b/server.go
@@ -199,6 +199,16 @@ const (
 // ListenAll for listen on all bindings
 func (srv *Server) ListenAll() (err error) {
 
+	listening := 0
+	defer func() {
+		if err != nil {
+			// nobody will serve those which do listen
+			for i := 0; i < listening; i++ {
+				srv.bindings[i].ln.Close()
+			}
+		}
+	}()
+
 	for i, binding := range srv.bindings {
 
 		var ln net.Listener
@@ -235,6 +245,7 @@ func (srv *Server) ListenAll() (err error) {
 			}
 
 		}
+		listening++
 	}
 
 	return
-- 
2.43.0


From a275e0763b19a059cfc4da608645ed6f60dd6d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:04 +0000
Subject: [PATCH 48/53] fix: a websocket binding survives failed accepts

http.Server ends for good (and closes its listener) on errors which are not
temporary, while the other transports keep trying.
---
 ws/server/overlay.go | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/ws/server/overlay.go b/ws/server/overlay.go
index 31b9bfc..f9145ed 100644
--- a/ws/server/overlay.go
+++ b/ws/server/overlay.go
@@ -5,6 +5,7 @@ import (
 	"crypto/tls"
 	"net"
 	"net/http"
+	"time"
 
 	"github.com/gorilla/websocket"
 	"github.com/zhiqiangxu/qrpc"
@@ -74,13 +75,41 @@ func newOverlay(l net.Listener, tlsConfig *tls.Config) (o *qrpcOverWS) {
 	}
 
 	go func() {
-		err := httpServer.Serve(l)
+		err := httpServer.Serve(&retryListener{Listener: l, ctx: ctx})
 		qrpc.Logger().Error("httpServer.Serve", zap.Error(err))
 	}()
 
 	return
 }
 
+// retryListener keeps trying, http.Server ends for good on most errors
+type retryListener struct {
+	net.Listener
+	ctx context.Context
+}
+
+func (l *retryListener) Accept() (conn net.Conn, err error) {
+	for {
+		conn, err = l.Listener.Accept()
+		if err == nil || l.ctx.Err() != nil {
+			return
+		}
+		if ne, ok := err.(net.Error); ok && ne.Temporary() {
+			return
+		}
+		qrpc.Logger().Error("qrpcOverWS: Accept fatal", zap.Error(err))
+		select {
+		case <-time.After(time.Second):
+		case <-l.ctx.Done():
+		}
+	}
+}
+
+// Close is left to qrpcOverWS
+func (l *retryListener) Close() error {
+	return nil
+}
+
 func (o *qrpcOverWS) Accept() (conn net.Conn, err error) {
 	select {
 	case c := <-o.acceptCh:
-- 
2.43.0


From f6a05b14e0b075f1396d06e3e11abf3ffb336c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:29 +0000
Subject: [PATCH 49/53] fix: NewReusedConnection honours the dial options

The TLS configuration was ignored, which sent plain text to a TLS server, and so
were the buffer sizes. GetReusedCon read the connection without its lock.
---
 clientconn.go       | 12 +++++++++---
 clientconn_reuse.go |  8 ++++++++
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/clientconn.go b/clientconn.go
index 4fce673..832ad22 100644
--- a/clientconn.go
+++ b/clientconn.go
@@ -122,6 +122,12 @@ func dialTCP(addr string, dialConfig DialConfig) (rwc net.Conn, err error) {
 		return
 	}
 
+	return setupTCP(rwc, dialConfig)
+}
+
+// setupTCP applies the dial options to a fresh connection
+func setupTCP(rwc net.Conn, dialConfig DialConfig) (net.Conn, error) {
+
 	tc := rwc.(*net.TCPConn)
 	if dialConfig.RBufSize > 0 {
 		sockOptErr := tc.SetReadBuffer(dialConfig.RBufSize)
@@ -141,17 +147,17 @@ func dialTCP(addr string, dialConfig DialConfig) (rwc net.Conn, err error) {
 		if dialConfig.DialTimeout > 0 {
 			rwc.SetDeadline(time.Now().Add(dialConfig.DialTimeout))
 		}
-		err = tlsConn.Handshake()
+		err := tlsConn.Handshake()
 		if err != nil {
 			rwc.Close()
-			return
+			return nil, err
 		}
 		rwc.SetDeadline(time.Time{})
 
 		rwc = tlsConn
 	}
 
-	return
+	return rwc, nil
 }
 
 // NewConnectionWithReconnect constructs a *Connection with reconnect ability
diff --git a/clientconn_reuse.go b/clientconn_reuse.go
index 557ab0d..4390174 100644
--- a/clientconn_reuse.go
+++ b/clientconn_reuse.go
@@ -17,10 +17,18 @@ func NewReusedConnection(addr string, conf ConnectionConfig, f SubFunc) (*Connec
 		return nil, err
 	}
 
+	rwc, err = setupTCP(rwc, DialConfig{DialTimeout: conf.DialTimeout, WBufSize: conf.WBufSize, RBufSize: conf.RBufSize, TLSConf: conf.TLSConf})
+	if err != nil {
+		l.Error("NewConnection setup", zap.Error(err))
+		return nil, err
+	}
+
 	return newConnection(rwc, []string{addr}, conf, f, false), nil
 }
 
 // GetReusedCon returns the underlying reuse-able socket
 func (conn *Connection) GetReusedCon() net.Conn {
+	conn.mu.Lock()
+	defer conn.mu.Unlock()
 	return conn.rwc
 }
-- 
2.43.0


From 03bc79bbeea6a88ea6784b6910e2b7cb10fa3a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:46 +0000
Subject: [PATCH 50/53] fix: a reset stream's context is done before its end
 shows

ResetByPeer closed the channel of frames before it cancelled the context of
the stream, so a reader could see the end of a stream which was reset, or cut
off with its connection, while its context was not done, and take the part it
got for the whole.
---
 stream.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/stream.go b/stream.go
index 3cf0d2b..4adbb26 100644
--- a/stream.go
+++ b/stream.go
@@ -213,12 +213,14 @@ func (s *Stream) AddOutFrame(requestID uint64, flags FrameFlag) bool {
 // ResetByPeer resets a stream by peer
 func (s *Stream) ResetByPeer() {
 	swapped := atomic.CompareAndSwapInt32(&s.closedPeer, 0, 1)
+
+	// before frameCh is closed, so that readers can tell the end from a cut
+	s.reset()
+
 	if swapped {
 		close(s.frameCh)
 	}
 
-	s.reset()
-
 	if atomic.LoadInt32(&s.closedSelf) != 0 {
 		s.afterDone()
 	}
-- 
2.43.0


From 72fa90fb0b4102dbdb55a9ebdd070f4e49739681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:14 +0000
Subject: [PATCH 51/53] fix: an answer is not handled as a request while its
 connection closes

closeUntracked drops the pending responses before it cancels the context, and
readFrames took an answer which arrived in between for a request and passed it
to the handler.
---
 serveconn.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/serveconn.go b/serveconn.go
index 368c1ad..c66fed9 100644
--- a/serveconn.go
+++ b/serveconn.go
@@ -415,6 +415,11 @@ func (sc *serveconn) readFrames() (err error) {
 		}
 		if req.FromServer() {
 			ci.Lock()
+			if ci.closed {
+				// respes are gone, so it can't be told from a request
+				ci.Unlock()
+				return ErrConnAlreadyClosed
+			}
 			if ci.respes != nil {
 				resp, ok := ci.respes[req.RequestID]
 				if ok {
-- 
2.43.0


From 3f87f24d0940fe79a940de0e6a43c98550de32cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:14 +0000
Subject: [PATCH 52/53] fix: what handlers make of streams cut off by closing
 is not sent

A closed connection's context is done before the connection is gone (in
Shutdown, or Close of a client), and from then on frames of the peer are
dropped. A handler reading a stream then saw it end early, and its answer could
still be queued and reach the peer as the answer to the whole stream.
---
 clientconn.go | 6 ++++++
 serveconn.go  | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/clientconn.go b/clientconn.go
index 832ad22..b645647 100644
--- a/clientconn.go
+++ b/clientconn.go
@@ -392,6 +392,12 @@ func (conn *Connection) getCodec() CompressorCodec {
 
 func (conn *Connection) writeFrameBytes(dfw *defaultFrameWriter) error {
 
+	// once ctx is done the streams which handlers read are cut off,
+	// what they make of that must not reach the server anymore
+	if err := conn.ctx.Err(); err != nil {
+		return err
+	}
+
 	wfr := newWriteFrameRequest(dfw)
 
 	loopCtx := conn.atomicLoopCtx()
diff --git a/serveconn.go b/serveconn.go
index c66fed9..060c1d9 100644
--- a/serveconn.go
+++ b/serveconn.go
@@ -492,6 +492,12 @@ func newWriteFrameRequest(dfw *defaultFrameWriter) *writeFrameRequest {
 }
 
 func (sc *serveconn) writeFrameBytes(dfw *defaultFrameWriter) (err error) {
+	// once ctx is done the streams which handlers read are cut off,
+	// what they make of that must not reach the client anymore
+	if err = sc.ctx.Err(); err != nil {
+		return
+	}
+
 	wfr := newWriteFrameRequest(dfw)
 
 	select {
-- 
2.43.0


From 4a642c1addac6b9b8a36d7eec55383a0cf398adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:34 +0000
Subject: [PATCH 53/53] fix: a client fails what waits for a lost connection
 while callbacks run

While OnConnect, OnDisconnect or the subscriber of a client was still running when its connection got lost, nobody failed what waited for that connection: a request made by the callback, or by anybody else meanwhile, hung, and with it the callback and the client.
---
 clientconn.go | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/clientconn.go b/clientconn.go
index b645647..1b1edcd 100644
--- a/clientconn.go
+++ b/clientconn.go
@@ -238,6 +238,12 @@ func (conn *Connection) loop() {
 			conn.writeFrames()
 		})
 
+		ended, released := make(chan struct{}), make(chan struct{})
+		go func() {
+			conn.releaseWhenLost(ended)
+			close(released)
+		}()
+
 		if conn.conf.LifecycleCallbacks.OnConnect != nil {
 			conn.conf.LifecycleCallbacks.OnConnect(conn)
 		}
@@ -251,6 +257,8 @@ func (conn *Connection) loop() {
 
 		conn.loopWG.Wait()
 		conn.endLoop()
+		close(ended)
+		<-released
 
 		// close & quit if not reconnect; otherwise automatically reconnect
 		if !conn.reconnect {
@@ -463,23 +471,21 @@ func (conn *Connection) endLoop() {
 
 	// ends the streams handlers may be reading
 	conn.cs.Release()
-	conn.waitHandlers()
+	conn.handlerWG.Wait()
 	conn.cs = &ConnStreams{}
 
 }
 
-// waitHandlers waits for all handlers of the lost connection,
-// whatever is queued meanwhile fails since nobody else will take it
-func (conn *Connection) waitHandlers() {
-	done := make(chan struct{})
-	go func() {
-		conn.handlerWG.Wait()
-		close(done)
-	}()
+// releaseWhenLost fails whatever waits for the connection once it's lost,
+// even while callbacks, the subscriber or handlers are still running,
+// nobody else will until they all returned
+func (conn *Connection) releaseWhenLost(ended chan struct{}) {
+	<-(*conn.loopCtx).Done()
+	conn.closeRWC()
 
 	for {
 		select {
-		case <-done:
+		case <-ended:
 			return
 		case res := <-conn.writeFrameCh:
 			if res.take() {
-- 
2.43.0

