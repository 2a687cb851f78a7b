From 9461ac47e0c3a810361a271263aca04c046509f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:37 +0000
Subject: [PATCH 01/61] fix: deliver exactly one InvokeResult for a completion
 with result

---
 invokeclient.go | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/invokeclient.go b/invokeclient.go
index 126f7da..0708286 100644
--- a/invokeclient.go
+++ b/invokeclient.go
@@ -97,11 +97,6 @@ func (i *invokeClient) receiveCompletionItem(completion completionMessage) error
 			done := make(chan struct{})
 			go func() {
 				ir.resultChan <- result
-				if completion.Error != "" {
-					ir.errChan <- errors.New(completion.Error)
-				} else {
-					ir.errChan <- nil
-				}
 				close(done)
 			}()
 			select {
-- 
2.43.0


From e0b9c7c3c4ee12d474a41139401540cddf1b9fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:29 +0000
Subject: [PATCH 02/61] fix: handle messages received together with the
 handshake

A message which arrived in the same read as the handshake request or response
was dropped. A connection closed during the handshake was polled until the
handshake timeout.
---
 client.go        | 91 +++++++++++++++++++++---------------------------
 hubconnection.go | 18 +++++++++-
 hubprotocol.go   | 41 ++++++++++++++++++++++
 loop.go          |  7 +++-
 server.go        | 42 +++++++++-------------
 5 files changed, 120 insertions(+), 79 deletions(-)

diff --git a/client.go b/client.go
index 1baf2b7..89b7c48 100644
--- a/client.go
+++ b/client.go
@@ -1,7 +1,6 @@
 package signalr
 
 import (
-	"bytes"
 	"context"
 	"encoding/json"
 	"errors"
@@ -234,12 +233,12 @@ func (c *client) Stop() {
 
 func (c *client) run() error {
 	// negotiate and so on
-	protocol, err := c.setupConnectionAndProtocol()
+	protocol, received, err := c.setupConnectionAndProtocol()
 	if err != nil {
 		return err
 	}
 
-	loop := newLoop(c, c.conn, protocol)
+	loop := newLoop(c, c.conn, protocol, received)
 	c.mx.Lock()
 	c.loop = loop
 	c.mx.Unlock()
@@ -284,31 +283,31 @@ func (c *client) shouldClientEnd() bool {
 	return false
 }
 
-func (c *client) setupConnectionAndProtocol() (hubProtocol, error) {
-	return func() (hubProtocol, error) {
+func (c *client) setupConnectionAndProtocol() (hubProtocol, []byte, error) {
+	return func() (hubProtocol, []byte, error) {
 		c.mx.Lock()
 		defer c.mx.Unlock()
 
 		if c.conn == nil {
 			if c.connectionFactory == nil {
-				return nil, ErrUnableToConnect
+				return nil, nil, ErrUnableToConnect
 			}
 			var err error
 			c.conn, err = c.connectionFactory()
 			if err != nil {
-				return nil, err
+				return nil, nil, err
 			}
 		}
 		// Pass maximum receive message size to a potential websocket connection
 		if wsConn, ok := c.conn.(*webSocketConnection); ok {
 			wsConn.conn.SetReadLimit(int64(c.maximumReceiveMessageSize()))
 		}
-		protocol, err := c.processHandshake()
+		protocol, received, err := c.processHandshake()
 		if err != nil {
-			return nil, err
+			return nil, nil, err
 		}
 
-		return protocol, nil
+		return protocol, received, nil
 	}()
 }
 
@@ -571,9 +570,11 @@ func (c *client) prefixLoggers(connectionID string) (info StructuredLogger, dbg
 			"hub", t)
 }
 
-func (c *client) processHandshake() (hubProtocol, error) {
+// processHandshake processes the handshake. Additionally to the protocol, it returns the bytes of messages
+// which have been received together with the handshake response.
+func (c *client) processHandshake() (hubProtocol, []byte, error) {
 	if err := c.sendHandshakeRequest(); err != nil {
-		return nil, err
+		return nil, nil, err
 	}
 	return c.receiveHandshakeResponse()
 }
@@ -595,47 +596,35 @@ func (c *client) sendHandshakeRequest() error {
 	return nil
 }
 
-func (c *client) receiveHandshakeResponse() (hubProtocol, error) {
+func (c *client) receiveHandshakeResponse() (hubProtocol, []byte, error) {
 	info, dbg := c.prefixLoggers(c.conn.ConnectionID())
 	ctx, cancelRead := context.WithTimeout(c.Context(), c.HandshakeTimeout())
 	defer cancelRead()
-	readJSONFramesChan := make(chan []interface{}, 1)
-	go func() {
-		var remainBuf bytes.Buffer
-		rawHandshake, err := readJSONFrames(c.conn, &remainBuf, 0)
-		readJSONFramesChan <- []interface{}{rawHandshake, err}
-	}()
-	select {
-	case result := <-readJSONFramesChan:
-		if result[1] != nil {
-			return nil, result[1].(error)
-		}
-		rawHandshake := result[0].([][]byte)
-		response := handshakeResponse{}
-		if err := json.Unmarshal(rawHandshake[0], &response); err != nil {
-			// Malformed handshake
-			_ = info.Log(evt, "handshake received", "msg", string(rawHandshake[0]), "error", err)
-			return nil, err
-		} else {
-			if response.Error != "" {
-				_ = info.Log(evt, "handshake received", "error", response.Error)
-				return nil, errors.New(response.Error)
-			}
-			_ = dbg.Log(evt, "handshake received", "msg", fmtMsg(response))
-			var protocol hubProtocol
-			switch c.format {
-			case "json":
-				protocol = &jsonHubProtocol{}
-			case "messagepack":
-				protocol = &messagePackHubProtocol{}
-			}
-			if protocol != nil {
-				_, pDbg := c.loggers()
-				protocol.setDebugLogger(pDbg)
-			}
-			return protocol, nil
-		}
-	case <-ctx.Done():
-		return nil, ctx.Err()
+	rawHandshake, received, err := readHandshake(ctx, c.conn)
+	if err != nil {
+		return nil, nil, err
+	}
+	response := handshakeResponse{}
+	if err := json.Unmarshal(rawHandshake, &response); err != nil {
+		// Malformed handshake
+		_ = info.Log(evt, "handshake received", "msg", string(rawHandshake), "error", err)
+		return nil, nil, err
+	}
+	if response.Error != "" {
+		_ = info.Log(evt, "handshake received", "error", response.Error)
+		return nil, nil, errors.New(response.Error)
+	}
+	_ = dbg.Log(evt, "handshake received", "msg", fmtMsg(response))
+	var protocol hubProtocol
+	switch c.format {
+	case "json":
+		protocol = &jsonHubProtocol{}
+	case "messagepack":
+		protocol = &messagePackHubProtocol{}
+	}
+	if protocol != nil {
+		_, pDbg := c.loggers()
+		protocol.setDebugLogger(pDbg)
 	}
+	return protocol, received, nil
 }
diff --git a/hubconnection.go b/hubconnection.go
index 8c60f85..b578c00 100644
--- a/hubconnection.go
+++ b/hubconnection.go
@@ -57,6 +57,7 @@ type defaultHubConnection struct {
 	mx                        sync.Mutex
 	connection                Connection
 	maximumReceiveMessageSize uint
+	received                  []byte // read from the connection together with the handshake
 	items                     *sync.Map
 	lastWriteStamp            time.Time
 	info                      StructuredLogger
@@ -100,6 +101,17 @@ func (c *defaultHubConnection) Receive() <-chan receiveResult {
 	}()
 
 	p := make([]byte, c.maximumReceiveMessageSize)
+	connReader := io.Reader(c.connection)
+	if len(c.received) > 0 {
+		// The first messages might have been read together with the handshake
+		received := bytes.NewReader(c.received)
+		connReader = readerFunc(func(p []byte) (int, error) {
+			if received.Len() > 0 {
+				return received.Read(p)
+			}
+			return c.connection.Read(p)
+		})
+	}
 	go func(ctx context.Context, connection io.Reader, writer io.Writer, recvChan chan<- receiveResult, writerDone chan<- struct{}) {
 	loop:
 		for {
@@ -129,7 +141,7 @@ func (c *defaultHubConnection) Receive() <-chan receiveResult {
 		}
 		// The pipe writer is done
 		close(writerDone)
-	}(c.ctx, c.connection, writer, recvChan, writerDone)
+	}(c.ctx, connReader, writer, recvChan, writerDone)
 	// parse
 	go func(ctx context.Context, reader io.Reader, recvChan chan<- receiveResult, writerDone <-chan struct{}) {
 		remainBuf := bytes.Buffer{}
@@ -261,3 +273,7 @@ func (c *defaultHubConnection) writeMessage(message interface{}) error {
 	}
 	return err
 }
+
+type readerFunc func(p []byte) (int, error)
+
+func (f readerFunc) Read(p []byte) (int, error) { return f(p) }
diff --git a/hubprotocol.go b/hubprotocol.go
index 3d3d1e1..9823f5a 100644
--- a/hubprotocol.go
+++ b/hubprotocol.go
@@ -2,6 +2,8 @@ package signalr
 
 import (
 	"bytes"
+	"context"
+	"fmt"
 	"io"
 )
 
@@ -71,3 +73,42 @@ type handshakeRequest struct {
 type handshakeResponse struct {
 	Error string `json:"error,omitempty"`
 }
+
+// maximumHandshakeSize is the maximum size of a handshake request or response
+const maximumHandshakeSize = 1 << 15
+
+// readHandshake reads a handshake message from the connection. It returns the message and the bytes which
+// were received after it. These are the begin of the messages which follow the handshake.
+func readHandshake(ctx context.Context, conn io.Reader) (handshake []byte, received []byte, err error) {
+	type result struct {
+		handshake, received []byte
+		err                 error
+	}
+	resultChan := make(chan result, 1)
+	go func() {
+		p := make([]byte, maximumHandshakeSize)
+		var buf []byte
+		for {
+			n, err := conn.Read(p)
+			buf = append(buf, p[:n]...)
+			if i := bytes.IndexByte(buf, 0x1e); i >= 0 {
+				resultChan <- result{handshake: buf[:i], received: buf[i+1:]}
+				return
+			}
+			if err != nil {
+				resultChan <- result{err: err}
+				return
+			}
+			if len(buf) > maximumHandshakeSize {
+				resultChan <- result{err: fmt.Errorf("handshake exceeds maximum size %d", maximumHandshakeSize)}
+				return
+			}
+		}
+	}()
+	select {
+	case r := <-resultChan:
+		return r.handshake, r.received, r.err
+	case <-ctx.Done():
+		return nil, nil, ctx.Err()
+	}
+}
diff --git a/loop.go b/loop.go
index 3d413d0..ea7ab44 100644
--- a/loop.go
+++ b/loop.go
@@ -24,13 +24,18 @@ type loop struct {
 	closeMessage *closeMessage
 }
 
-func newLoop(p Party, conn Connection, protocol hubProtocol) *loop {
+// newLoop creates a loop for the connection. received are the bytes which have already been read from conn
+// together with the handshake.
+func newLoop(p Party, conn Connection, protocol hubProtocol, received []byte) *loop {
 	protocol = reflect.New(reflect.ValueOf(protocol).Elem().Type()).Interface().(hubProtocol)
 	_, dbg := p.loggers()
 	protocol.setDebugLogger(dbg)
 	protocol.setMaxReceiveMessageSize(p.maximumReceiveMessageSize())
 	pInfo, pDbg := p.prefixLoggers(conn.ConnectionID())
 	hubConn := newHubConnection(conn, protocol, p.maximumReceiveMessageSize(), pInfo)
+	if hc, ok := hubConn.(*defaultHubConnection); ok {
+		hc.received = received
+	}
 	return &loop{
 		party:        p,
 		protocol:     protocol,
diff --git a/server.go b/server.go
index 7989887..2b4496d 100644
--- a/server.go
+++ b/server.go
@@ -1,7 +1,6 @@
 package signalr
 
 import (
-	"bytes"
 	"context"
 	"encoding/json"
 	"errors"
@@ -127,14 +126,14 @@ func (s *server) MapHTTP(routerFactory func() MappableRouter, path string) {
 // or the servers' context is canceled.
 func (s *server) Serve(conn Connection) error {
 
-	protocol, err := s.processHandshake(conn)
+	protocol, received, err := s.processHandshake(conn)
 	if err != nil {
 		info, _ := s.prefixLoggers("")
 		_ = info.Log(evt, "processHandshake", "connectionId", conn.ConnectionID(), "error", err, react, "do not connect")
 		return err
 	}
 
-	return newLoop(s, conn, protocol).Run(make(chan struct{}, 1))
+	return newLoop(s, conn, protocol, received).Run(make(chan struct{}, 1))
 }
 
 func (s *server) HubClients() HubClients {
@@ -246,36 +245,27 @@ func (s *server) newConnectionHubContext(hubConn HubConnection) HubContext {
 	}
 }
 
-func (s *server) processHandshake(conn Connection) (hubProtocol, error) {
-	if request, err := s.receiveHandshakeRequest(conn); err != nil {
-		return nil, err
-	} else {
-		return s.sendHandshakeResponse(conn, request)
+// processHandshake processes the handshake. Additionally to the protocol, it returns the bytes of messages
+// which have been received together with the handshake request.
+func (s *server) processHandshake(conn Connection) (protocol hubProtocol, received []byte, err error) {
+	request, received, err := s.receiveHandshakeRequest(conn)
+	if err != nil {
+		return nil, nil, err
 	}
+	protocol, err = s.sendHandshakeResponse(conn, request)
+	return protocol, received, err
 }
 
-func (s *server) receiveHandshakeRequest(conn Connection) (handshakeRequest, error) {
+func (s *server) receiveHandshakeRequest(conn Connection) (request handshakeRequest, received []byte, err error) {
 	_, dbg := s.prefixLoggers(conn.ConnectionID())
 	ctx, cancelRead := context.WithTimeout(s.Context(), s.HandshakeTimeout())
 	defer cancelRead()
-	readJSONFramesChan := make(chan []interface{}, 1)
-	go func() {
-		var remainBuf bytes.Buffer
-		rawHandshake, err := readJSONFrames(conn, &remainBuf, 0)
-		readJSONFramesChan <- []interface{}{rawHandshake, err}
-	}()
-	request := handshakeRequest{}
-	select {
-	case result := <-readJSONFramesChan:
-		if result[1] != nil {
-			return request, result[1].(error)
-		}
-		rawHandshake := result[0].([][]byte)
-		_ = dbg.Log(evt, "handshake received", "msg", string(rawHandshake[0]))
-		return request, json.Unmarshal(rawHandshake[0], &request)
-	case <-ctx.Done():
-		return request, ctx.Err()
+	rawHandshake, received, err := readHandshake(ctx, conn)
+	if err != nil {
+		return request, nil, err
 	}
+	_ = dbg.Log(evt, "handshake received", "msg", string(rawHandshake))
+	return request, received, json.Unmarshal(rawHandshake, &request)
 }
 
 func (s *server) sendHandshakeResponse(conn Connection, request handshakeRequest) (protocol hubProtocol, err error) {
-- 
2.43.0


From eca3a94f6cac15408a13cbf43594db035dcdac1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:36 +0000
Subject: [PATCH 03/61] fix: decode JSON messages independently of each other
 and of the read they arrive with

Members missing in one message took their value from the message before, and the
maximum receive message size was applied to all messages of a read together.
Messages which arrive before an undecodable one are returned now.
---
 jsonhubprotocol.go | 43 +++++++++++++++++++++++--------------------
 1 file changed, 23 insertions(+), 20 deletions(-)

diff --git a/jsonhubprotocol.go b/jsonhubprotocol.go
index ce1e7bd..a373838 100644
--- a/jsonhubprotocol.go
+++ b/jsonhubprotocol.go
@@ -64,23 +64,21 @@ func (j *jsonHubProtocol) UnmarshalArgument(src interface{}, dst interface{}) er
 	return nil
 }
 
-// ParseMessages reads all messages from the reader and puts the remaining bytes into remainBuf
+// ParseMessages reads all messages from the reader and puts the remaining bytes into remainBuf.
+// When it returns an error, it also returns the messages which arrived before the error occurred.
 func (j *jsonHubProtocol) ParseMessages(reader io.Reader, remainBuf *bytes.Buffer) (messages []interface{}, err error) {
 	frames, err := readJSONFrames(reader, remainBuf, int(j.maximumReceiveMessageSize))
-	if err != nil {
-		return nil, err
-	}
-	message := hubMessage{}
 	messages = make([]interface{}, 0)
 	for _, frame := range frames {
-		err = json.Unmarshal(frame, &message)
+		message := hubMessage{}
+		unmarshalErr := json.Unmarshal(frame, &message)
 		_ = j.dbg.Log(evt, "read", msg, string(frame))
-		if err != nil {
-			return nil, &jsonError{string(frame), err}
+		if unmarshalErr != nil {
+			return messages, &jsonError{string(frame), unmarshalErr}
 		}
-		typedMessage, err := j.parseMessage(message.Type, frame)
-		if err != nil {
-			return nil, err
+		typedMessage, parseErr := j.parseMessage(message.Type, frame)
+		if parseErr != nil {
+			return messages, parseErr
 		}
 		// No specific type (aka Ping), use hubMessage
 		if typedMessage == nil {
@@ -88,7 +86,7 @@ func (j *jsonHubProtocol) ParseMessages(reader io.Reader, remainBuf *bytes.Buffe
 		}
 		messages = append(messages, typedMessage)
 	}
-	return messages, nil
+	return messages, err
 }
 
 func (j *jsonHubProtocol) parseMessage(messageType int, text []byte) (message interface{}, err error) {
@@ -154,7 +152,8 @@ func (j *jsonHubProtocol) parseMessage(messageType int, text []byte) (message in
 }
 
 // readJSONFrames reads all complete frames (delimited by 0x1e) from the reader and puts the remaining bytes into remainBuf.
-// maxSize is the maximum number of bytes that may accumulate before a delimiter; 0 means unlimited.
+// maxSize is the maximum number of bytes of a frame, no matter if it is already complete or not; 0 means unlimited.
+// When it returns an error, it also returns the frames which arrived before the error occurred.
 func readJSONFrames(reader io.Reader, remainBuf *bytes.Buffer, maxSize int) ([][]byte, error) {
 	p := make([]byte, 1<<15)
 	buf := &bytes.Buffer{}
@@ -162,24 +161,28 @@ func readJSONFrames(reader io.Reader, remainBuf *bytes.Buffer, maxSize int) ([][
 	// Try getting data until at least one frame is available
 	for {
 		n, err := reader.Read(p)
-		// Some reader implementations return io.EOF additionally to n=0 if no data could be read
-		if err != nil && !errors.Is(err, io.EOF) {
-			return nil, err
-		}
 		if n > 0 {
 			_, _ = buf.Write(p[:n])
-			if maxSize > 0 && buf.Len() > maxSize {
-				return nil, fmt.Errorf("JSON frame buffer exceeded maximum receive message size %d", maxSize)
-			}
 			frames, err := parseJSONFrames(buf)
 			if err != nil {
 				return nil, err
 			}
+			for i, frame := range frames {
+				if maxSize > 0 && len(frame) > maxSize {
+					return frames[:i], fmt.Errorf("JSON frame exceeded maximum receive message size %d", maxSize)
+				}
+			}
+			if maxSize > 0 && buf.Len() > maxSize {
+				return frames, fmt.Errorf("JSON frame buffer exceeded maximum receive message size %d", maxSize)
+			}
 			if len(frames) > 0 {
 				_, _ = remainBuf.ReadFrom(buf)
 				return frames, nil
 			}
 		}
+		if err != nil {
+			return nil, err
+		}
 	}
 }
 
-- 
2.43.0


From a1e16a5c5f81cf8aad0f02eba16bd1c2f0c8f81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:36 +0000
Subject: [PATCH 04/61] fix: reassemble MessagePack frames correctly for every
 read size

Frames shorter than the length prefix buffer were padded with zeros, completely
received frames were held back until more bytes arrived, and the bytes of
following frames were reordered.
---
 messagepackhubprotocol.go | 94 +++++++++++++++------------------------
 1 file changed, 35 insertions(+), 59 deletions(-)

diff --git a/messagepackhubprotocol.go b/messagepackhubprotocol.go
index 8b26358..d992e3b 100644
--- a/messagepackhubprotocol.go
+++ b/messagepackhubprotocol.go
@@ -3,7 +3,6 @@ package signalr
 import (
 	"bytes"
 	"encoding/binary"
-	"errors"
 	"fmt"
 	"io"
 
@@ -16,86 +15,63 @@ type messagePackHubProtocol struct {
 	maximumReceiveMessageSize uint
 }
 
+// ParseMessages reads all messages from the reader and puts the remaining bytes into remainBuf.
+// When it returns an error, it also returns the messages which arrived before the error occurred.
 func (m *messagePackHubProtocol) ParseMessages(reader io.Reader, remainBuf *bytes.Buffer) ([]interface{}, error) {
 	frames, err := m.readFrames(reader, remainBuf)
-	if err != nil {
-		return nil, err
-	}
 	messages := make([]interface{}, 0)
 	for _, frame := range frames {
-		message, err := m.parseMessage(bytes.NewBuffer(frame))
-		if err != nil {
-			return nil, err
+		message, parseErr := m.parseMessage(bytes.NewBuffer(frame))
+		if parseErr != nil {
+			return messages, parseErr
 		}
 		messages = append(messages, message)
 	}
-	return messages, nil
+	return messages, err
 }
 
+// readFrames reads until at least one frame is complete and puts the remaining bytes into remainBuf.
+// When it returns an error, it also returns the frames which arrived before the error occurred.
 func (m *messagePackHubProtocol) readFrames(reader io.Reader, remainBuf *bytes.Buffer) ([][]byte, error) {
-	frames := make([][]byte, 0)
+	p := make([]byte, 1<<15)
 	for {
-		// Try to get the frame length
-		frameLenBuf := make([]byte, binary.MaxVarintLen32)
-		n1, err := remainBuf.Read(frameLenBuf)
-		if err != nil && !errors.Is(err, io.EOF) {
-			// Some weird other error
-			return nil, err
+		frames, err := m.completeFrames(remainBuf)
+		if len(frames) > 0 || err != nil {
+			return frames, err
 		}
-		n2, err := reader.Read(frameLenBuf[n1:])
-		if err != nil && !errors.Is(err, io.EOF) {
-			// Some weird other error
+		n, err := reader.Read(p)
+		_, _ = remainBuf.Write(p[:n])
+		if n == 0 && err != nil {
 			return nil, err
 		}
-		frameLen, lenLen := binary.Uvarint(frameLenBuf[:n1+n2])
+	}
+}
+
+// completeFrames removes all complete frames from buf
+func (m *messagePackHubProtocol) completeFrames(buf *bytes.Buffer) ([][]byte, error) {
+	frames := make([][]byte, 0)
+	for {
+		frameLen, lenLen := binary.Uvarint(buf.Bytes())
+		if lenLen < 0 || lenLen > binary.MaxVarintLen32 || lenLen == 0 && buf.Len() >= binary.MaxVarintLen32 {
+			return frames, fmt.Errorf("messagepack frame length to large")
+		}
 		if lenLen == 0 {
-			// reader could not supply enough bytes to decode the Uvarint
-			// Store the already read bytes in the remainBuf for next iteration
-			_, _ = remainBuf.Write(frameLenBuf[:n1+n2])
+			// Not enough bytes to decode the frame length
 			return frames, nil
 		}
-		if lenLen < 0 {
-			return nil, fmt.Errorf("messagepack frame length to large")
+		if m.maximumReceiveMessageSize > 0 && frameLen > uint64(m.maximumReceiveMessageSize) {
+			return frames, fmt.Errorf("messagepack frame length %d exceeds maximum receive message size %d", frameLen, m.maximumReceiveMessageSize)
+		}
+		if uint64(buf.Len()-lenLen) < frameLen {
+			// Frame is not complete
+			return frames, nil
 		}
+		_ = buf.Next(lenLen)
 		// Still wondering why this happens, but it happens!
 		if frameLen == 0 {
-			// Store the overread bytes for the next iteration
-			_, _ = remainBuf.Write(frameLenBuf[lenLen:])
 			continue
 		}
-		if m.maximumReceiveMessageSize > 0 && frameLen > uint64(m.maximumReceiveMessageSize) {
-			return nil, fmt.Errorf("messagepack frame length %d exceeds maximum receive message size %d", frameLen, m.maximumReceiveMessageSize)
-		}
-		// Try getting data until at least one frame is available
-		readBuf := make([]byte, frameLen)
-		frameBuf := &bytes.Buffer{}
-		// Did we read too many bytes when detecting the frameLen?
-		_, _ = frameBuf.Write(frameLenBuf[lenLen:])
-		// Read the rest of the bytes from the last iteration
-		_, _ = frameBuf.ReadFrom(remainBuf)
-		for {
-			n, err := reader.Read(readBuf)
-			if errors.Is(err, io.EOF) {
-				// Less than frameLen. Let the caller parse the already read frames and come here again later
-				_, _ = remainBuf.ReadFrom(frameBuf)
-				return frames, nil
-			}
-			if err != nil {
-				return nil, err
-			}
-			_, _ = frameBuf.Write(readBuf[:n])
-			if frameBuf.Len() == int(frameLen) {
-				// Frame completely read. Return it to the caller
-				frames = append(frames, frameBuf.Next(int(frameLen)))
-				return frames, nil
-			}
-			if frameBuf.Len() > int(frameLen) {
-				// More than frameLen. Append the current frame to the result and start reading the next frame
-				frames = append(frames, frameBuf.Next(int(frameLen)))
-				_, _ = remainBuf.ReadFrom(frameBuf)
-				break
-			}
-		}
+		frames = append(frames, append([]byte(nil), buf.Next(int(frameLen))...))
 	}
 }
 
-- 
2.43.0


From c7ce8eafd4a5dc13d0e6bf66309649280fa38b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:36 +0000
Subject: [PATCH 05/61] fix: do not drop received messages when the connection
 ends

The error which ended the connection was able to overtake messages received
before.
---
 hubconnection.go | 87 +++++++++++++++++-------------------------------
 1 file changed, 30 insertions(+), 57 deletions(-)

diff --git a/hubconnection.go b/hubconnection.go
index b578c00..f64f407 100644
--- a/hubconnection.go
+++ b/hubconnection.go
@@ -90,8 +90,6 @@ func (c *defaultHubConnection) Abort() {
 
 func (c *defaultHubConnection) Receive() <-chan receiveResult {
 	recvChan := make(chan receiveResult, 20)
-	// Prepare cleanup
-	writerDone := make(chan struct{}, 1)
 	// the pipe connects the goroutine which reads from the connection and the goroutine which parses the read data
 	reader, writer := io.Pipe()
 	go func() {
@@ -112,70 +110,45 @@ func (c *defaultHubConnection) Receive() <-chan receiveResult {
 			return c.connection.Read(p)
 		})
 	}
-	go func(ctx context.Context, connection io.Reader, writer io.Writer, recvChan chan<- receiveResult, writerDone chan<- struct{}) {
-	loop:
-		for {
-			select {
-			case <-ctx.Done():
-				break loop
-			default:
-				n, err := connection.Read(p)
-				if err != nil {
-					select {
-					case recvChan <- receiveResult{err: err}:
-					case <-ctx.Done():
-						break loop
-					}
-				}
-				if n > 0 {
-					_, err = writer.Write(p[:n])
-					if err != nil {
-						select {
-						case recvChan <- receiveResult{err: err}:
-						case <-ctx.Done():
-							break loop
-						}
-					}
+	go func(ctx context.Context, connection io.Reader, writer *io.PipeWriter) {
+		for ctx.Err() == nil {
+			n, err := connection.Read(p)
+			if n > 0 {
+				if _, err := writer.Write(p[:n]); err != nil {
+					// The parser does not read anymore
+					return
 				}
 			}
+			if err != nil {
+				// The parser gets the error after the data which was read before
+				_ = writer.CloseWithError(err)
+				return
+			}
 		}
-		// The pipe writer is done
-		close(writerDone)
-	}(c.ctx, connReader, writer, recvChan, writerDone)
+	}(c.ctx, connReader, writer)
 	// parse
-	go func(ctx context.Context, reader io.Reader, recvChan chan<- receiveResult, writerDone <-chan struct{}) {
+	go func(ctx context.Context, reader *io.PipeReader, recvChan chan<- receiveResult) {
 		remainBuf := bytes.Buffer{}
-	loop:
 		for {
-			select {
-			case <-ctx.Done():
-				break loop
-			case <-writerDone:
-				break loop
-			default:
-				messages, err := c.protocol.ParseMessages(reader, &remainBuf)
-				if err != nil {
-					select {
-					case recvChan <- receiveResult{err: err}:
-					case <-ctx.Done():
-						break loop
-					case <-writerDone:
-						break loop
-					}
-				} else {
-					for _, message := range messages {
-						select {
-						case recvChan <- receiveResult{message: message}:
-						case <-ctx.Done():
-							break loop
-						case <-writerDone:
-							break loop
-						}
-					}
+			messages, err := c.protocol.ParseMessages(reader, &remainBuf)
+			for _, message := range messages {
+				select {
+				case recvChan <- receiveResult{message: message}:
+				case <-ctx.Done():
+					return
+				}
+			}
+			if err != nil {
+				select {
+				case recvChan <- receiveResult{err: err}:
+				case <-ctx.Done():
 				}
+				// Unblock the goroutine which reads from the connection
+				_ = reader.CloseWithError(err)
+				return
 			}
 		}
-	}(c.ctx, reader, recvChan, writerDone)
+	}(c.ctx, reader, recvChan)
 	return recvChan
 }
 
-- 
2.43.0


From 62173550dd520e4740a381319970e73783574e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:54 +0000
Subject: [PATCH 06/61] fix: never hand out the same id to two concurrent
 invocations

---
 loop.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/loop.go b/loop.go
index ea7ab44..738bb8e 100644
--- a/loop.go
+++ b/loop.go
@@ -195,8 +195,7 @@ func (l *loop) PushStreams(method, id string, arguments ...interface{}) (<-chan
 
 // GetNewID returns a new, connection-unique id for invocations and streams
 func (l *loop) GetNewID() string {
-	atomic.AddUint64(&l.lastID, 1)
-	return fmt.Sprint(atomic.LoadUint64(&l.lastID))
+	return fmt.Sprint(atomic.AddUint64(&l.lastID, 1))
 }
 
 func (l *loop) handleInvocationMessage(invocation invocationMessage) {
-- 
2.43.0


From 8757936a297ff52335baade972ba87d63914d8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:54 +0000
Subject: [PATCH 07/61] fix: do not panic when a nil argument is passed to
 PushStreams

---
 loop.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/loop.go b/loop.go
index 738bb8e..9b5a94c 100644
--- a/loop.go
+++ b/loop.go
@@ -174,7 +174,7 @@ func (l *loop) PushStreams(method, id string, arguments ...interface{}) (<-chan
 	streamIds := make([]string, 0)
 	// Parse arguments for channels and other kind of arguments
 	for _, arg := range arguments {
-		if reflect.TypeOf(arg).Kind() == reflect.Chan {
+		if arg != nil && reflect.TypeOf(arg).Kind() == reflect.Chan {
 			reflectedChannels = append(reflectedChannels, reflect.ValueOf(arg))
 			streamIds = append(streamIds, l.GetNewID())
 		} else {
-- 
2.43.0


From 4d3e457a9e3b32f7ef0a42965e9e0589d709a168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:55 +0000
Subject: [PATCH 08/61] fix: do not answer invocations without id when they
 fail

---
 loop.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/loop.go b/loop.go
index 9b5a94c..2553f7a 100644
--- a/loop.go
+++ b/loop.go
@@ -205,16 +205,16 @@ func (l *loop) handleInvocationMessage(invocation invocationMessage) {
 	if method, ok := getMethod(l.party.invocationTarget(l.hubConn), methodName); !ok {
 		// Unable to find the method
 		_ = l.info.Log(evt, "getMethod", "error", "missing method", "name", invocation.Target, react, "send completion with error")
-		_ = l.hubConn.Completion(invocation.InvocationID, nil, fmt.Sprintf("Unknown method %s", invocation.Target))
+		l.completeWithError(invocation, fmt.Sprintf("Unknown method %s", invocation.Target))
 	} else if in, err := buildMethodArguments(method, invocation, l.streamClient, l.protocol); err != nil {
 		// argument build failed
 		_ = l.info.Log(evt, "buildMethodArguments", "error", err, "name", invocation.Target, react, "send completion with error")
-		_ = l.hubConn.Completion(invocation.InvocationID, nil, err.Error())
+		l.completeWithError(invocation, err.Error())
 	} else {
 		// Stream invocation is only allowed when the method has only one return value
 		// We allow no channel return values, because a client can receive as stream with only one item
 		if invocation.Type == 4 && method.Type().NumOut() != 1 {
-			_ = l.hubConn.Completion(invocation.InvocationID, nil,
+			l.completeWithError(invocation,
 				fmt.Sprintf("Stream invocation of method %s which has not return value kind channel", invocation.Target))
 		} else {
 			// hub method might take a long time
@@ -229,6 +229,13 @@ func (l *loop) handleInvocationMessage(invocation invocationMessage) {
 	}
 }
 
+// completeWithError sends a completion with error, but only when the caller waits for a completion
+func (l *loop) completeWithError(invocation invocationMessage, errorText string) {
+	if invocation.InvocationID != "" {
+		_ = l.hubConn.Completion(invocation.InvocationID, nil, errorText)
+	}
+}
+
 func (l *loop) returnInvocationResult(invocation invocationMessage, result []reflect.Value) {
 	// No invocation id, no completion
 	if invocation.InvocationID != "" {
-- 
2.43.0


From 3723789e116ab16c6f79fadc447051bcf3715a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:56 +0000
Subject: [PATCH 09/61] fix: do not crash when an invocation has stream ids in
 place of arguments

---
 loop.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/loop.go b/loop.go
index 2553f7a..c5ae5ce 100644
--- a/loop.go
+++ b/loop.go
@@ -372,6 +372,9 @@ func buildMethodArguments(method reflect.Value, invocation invocationMessage,
 			arguments[i] = arg
 		} else {
 			// it is not, so do the normal thing
+			if i-chanCount >= len(invocation.Arguments) {
+				return arguments, fmt.Errorf("parameter mismatch calling method %v", invocation.Target)
+			}
 			arg := reflect.New(t)
 			if err := protocol.UnmarshalArgument(invocation.Arguments[i-chanCount], arg.Interface()); err != nil {
 				return arguments, err
-- 
2.43.0


From a96ed8f161f1e6b43f9c8dde6aa4cd6b6c1d1891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:57 +0000
Subject: [PATCH 10/61] fix: release the upload streams of refused invocations

A refused invocation occupied its places below MaxConcurrentStreams until the
connection ended, and could take over the stream id of another invocation.
---
 loop.go         | 34 ++++++++++++++++++++--------------
 streamclient.go |  4 ++++
 2 files changed, 24 insertions(+), 14 deletions(-)

diff --git a/loop.go b/loop.go
index c5ae5ce..aeaafe5 100644
--- a/loop.go
+++ b/loop.go
@@ -206,26 +206,24 @@ func (l *loop) handleInvocationMessage(invocation invocationMessage) {
 		// Unable to find the method
 		_ = l.info.Log(evt, "getMethod", "error", "missing method", "name", invocation.Target, react, "send completion with error")
 		l.completeWithError(invocation, fmt.Sprintf("Unknown method %s", invocation.Target))
+	} else if invocation.Type == 4 && method.Type().NumOut() != 1 {
+		// Stream invocation is only allowed when the method has only one return value
+		// We allow no channel return values, because a client can receive as stream with only one item
+		l.completeWithError(invocation,
+			fmt.Sprintf("Stream invocation of method %s which has not return value kind channel", invocation.Target))
 	} else if in, err := buildMethodArguments(method, invocation, l.streamClient, l.protocol); err != nil {
 		// argument build failed
 		_ = l.info.Log(evt, "buildMethodArguments", "error", err, "name", invocation.Target, react, "send completion with error")
 		l.completeWithError(invocation, err.Error())
 	} else {
-		// Stream invocation is only allowed when the method has only one return value
-		// We allow no channel return values, because a client can receive as stream with only one item
-		if invocation.Type == 4 && method.Type().NumOut() != 1 {
-			l.completeWithError(invocation,
-				fmt.Sprintf("Stream invocation of method %s which has not return value kind channel", invocation.Target))
-		} else {
-			// hub method might take a long time
-			go func() {
-				result := func() []reflect.Value {
-					defer l.recoverInvocationPanic(invocation)
-					return method.Call(in)
-				}()
-				l.returnInvocationResult(invocation, result)
+		// hub method might take a long time
+		go func() {
+			result := func() []reflect.Value {
+				defer l.recoverInvocationPanic(invocation)
+				return method.Call(in)
 			}()
-		}
+			l.returnInvocationResult(invocation, result)
+		}()
 	}
 }
 
@@ -360,6 +358,14 @@ func buildMethodArguments(method reflect.Value, invocation invocationMessage,
 	}
 	arguments = make([]reflect.Value, method.Type().NumIn())
 	chanCount := 0
+	defer func() {
+		if err != nil {
+			// The method will not be called, so nobody will receive the streams
+			for _, streamID := range invocation.StreamIds[:chanCount] {
+				streamClient.deleteUpstreamChannel(streamID)
+			}
+		}
+	}()
 	for i := 0; i < method.Type().NumIn(); i++ {
 		t := method.Type().In(i)
 		// Is it a channel for client streaming?
diff --git a/streamclient.go b/streamclient.go
index 1ee7781..fbdc0f7 100644
--- a/streamclient.go
+++ b/streamclient.go
@@ -38,6 +38,9 @@ func (c *streamClient) buildChannelArgument(invocation invocationMessage, argTyp
 		if c.maxConcurrentStreams > 0 && uint(len(c.upstreamChannels)) >= c.maxConcurrentStreams {
 			return reflect.Value{}, true, fmt.Errorf("maximum concurrent streams (%d) reached", c.maxConcurrentStreams)
 		}
+		if _, ok := c.upstreamChannels[invocation.StreamIds[chanCount]]; ok {
+			return reflect.Value{}, true, fmt.Errorf(`stream id "%v" is already in use`, invocation.StreamIds[chanCount])
+		}
 		// MakeChan does only accept bidirectional channels, and we need to Send to this channel anyway
 		arg = reflect.MakeChan(reflect.ChanOf(reflect.BothDir, argType.Elem()), int(c.streamBufferCapacity))
 		c.upstreamChannels[invocation.StreamIds[chanCount]] = arg
@@ -61,6 +64,7 @@ func (c *streamClient) deleteUpstreamChannel(invocationID string) {
 	if upChan, ok := c.upstreamChannels[invocationID]; ok {
 		upChan.Close()
 		delete(c.upstreamChannels, invocationID)
+		delete(c.runningStreams, invocationID)
 	}
 	c.mx.Unlock()
 }
-- 
2.43.0


From 3aeaae2c085c7ea2a0f0014874d088f84779a3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:29 +0000
Subject: [PATCH 11/61] fix: complete the invocation of a panicking method only
 once

The completion with error was followed by one or two more completions as if the
method had returned nothing. Upload streams of the method which are still open
are completed with error, because nobody receives them.
---
 loop.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/loop.go b/loop.go
index aeaafe5..8b6122d 100644
--- a/loop.go
+++ b/loop.go
@@ -218,11 +218,23 @@ func (l *loop) handleInvocationMessage(invocation invocationMessage) {
 	} else {
 		// hub method might take a long time
 		go func() {
+			returned := false
 			result := func() []reflect.Value {
 				defer l.recoverInvocationPanic(invocation)
-				return method.Call(in)
+				result := method.Call(in)
+				returned = true
+				return result
 			}()
-			l.returnInvocationResult(invocation, result)
+			if returned {
+				l.returnInvocationResult(invocation, result)
+			} else {
+				// The invocation is already completed with error. Nobody will receive its streams anymore
+				for _, streamID := range invocation.StreamIds {
+					if l.streamClient.handlesInvocationID(streamID) {
+						_ = l.hubConn.Completion(streamID, nil, fmt.Sprintf("panic in method %s", invocation.Target))
+					}
+				}
+			}
 		}()
 	}
 }
-- 
2.43.0


From 1c456b0136ff1aaa28712c1aa3345d4465812ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:06 +0000
Subject: [PATCH 12/61] fix: report an error as last return value as error of
 the invocation

As documented in "Supported method signatures". It was serialized as part of
the result.
---
 loop.go | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/loop.go b/loop.go
index 8b6122d..4f20bf3 100644
--- a/loop.go
+++ b/loop.go
@@ -206,8 +206,8 @@ func (l *loop) handleInvocationMessage(invocation invocationMessage) {
 		// Unable to find the method
 		_ = l.info.Log(evt, "getMethod", "error", "missing method", "name", invocation.Target, react, "send completion with error")
 		l.completeWithError(invocation, fmt.Sprintf("Unknown method %s", invocation.Target))
-	} else if invocation.Type == 4 && method.Type().NumOut() != 1 {
-		// Stream invocation is only allowed when the method has only one return value
+	} else if invocation.Type == 4 && numResults(method.Type()) != 1 {
+		// Stream invocation is only allowed when the method has only one return value, besides an optional error
 		// We allow no channel return values, because a client can receive as stream with only one item
 		l.completeWithError(invocation,
 			fmt.Sprintf("Stream invocation of method %s which has not return value kind channel", invocation.Target))
@@ -249,6 +249,18 @@ func (l *loop) completeWithError(invocation invocationMessage, errorText string)
 func (l *loop) returnInvocationResult(invocation invocationMessage, result []reflect.Value) {
 	// No invocation id, no completion
 	if invocation.InvocationID != "" {
+		// An error as last return value is not part of the result, but tells if the method failed
+		if last := len(result) - 1; last >= 0 && result[last].Type() == errorType {
+			if err, ok := result[last].Interface().(error); ok {
+				errorText := fmt.Sprintf("%v", err)
+				if errorText == "" {
+					errorText = fmt.Sprintf("%T", err)
+				}
+				_ = l.hubConn.Completion(invocation.InvocationID, nil, errorText)
+				return
+			}
+			result = result[:last]
+		}
 		// if the hub method returns a chan, it should be considered asynchronous or source for a stream
 		if len(result) == 1 && result[0].Kind() == reflect.Chan {
 			switch invocation.Type {
@@ -282,6 +294,17 @@ func (l *loop) returnInvocationResult(invocation invocationMessage, result []ref
 	}
 }
 
+var errorType = reflect.TypeOf((*error)(nil)).Elem()
+
+// numResults returns the number of return values of a method without the optional error as last return value
+func numResults(methodType reflect.Type) int {
+	n := methodType.NumOut()
+	if n > 0 && methodType.Out(n-1) == errorType {
+		n--
+	}
+	return n
+}
+
 func (l *loop) handleStreamItemMessage(streamItemMessage streamItemMessage) error {
 	_ = l.dbg.Log(evt, msgRecv, msg, fmtMsg(streamItemMessage))
 	if err := l.streamClient.receiveStreamItem(streamItemMessage); err != nil {
-- 
2.43.0


From cc079f312ac6840e7dc49ff2642959c10a56af2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:17 +0000
Subject: [PATCH 13/61] fix: do not let clients call the lifecycle methods of a
 hub

A client was able to fake connection events or to take away the context of a
hub shared by all connections by invoking Initialize.
---
 loop.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/loop.go b/loop.go
index 4f20bf3..73df225 100644
--- a/loop.go
+++ b/loop.go
@@ -202,7 +202,8 @@ func (l *loop) handleInvocationMessage(invocation invocationMessage) {
 	_ = l.dbg.Log(evt, msgRecv, msg, fmtMsg(invocation))
 	// Transient hub, dispatch invocation here
 	methodName := l.party.getMethodNameByAlternateName(invocation.Target)
-	if method, ok := getMethod(l.party.invocationTarget(l.hubConn), methodName); !ok {
+	target := l.party.invocationTarget(l.hubConn)
+	if method, ok := getMethod(target, methodName); !ok || isLifecycleMethod(target, methodName) {
 		// Unable to find the method
 		_ = l.info.Log(evt, "getMethod", "error", "missing method", "name", invocation.Target, react, "send completion with error")
 		l.completeWithError(invocation, fmt.Sprintf("Unknown method %s", invocation.Target))
@@ -444,6 +445,18 @@ func getMethod(target interface{}, name string) (reflect.Value, bool) {
 	return reflect.Value{}, false
 }
 
+// isLifecycleMethod tells if the method is one of the HubInterface methods of a hub. These are called by the server only.
+func isLifecycleMethod(target interface{}, name string) bool {
+	if _, ok := target.(HubInterface); !ok {
+		return false
+	}
+	switch strings.ToLower(name) {
+	case "initialize", "onconnected", "ondisconnected":
+		return true
+	}
+	return false
+}
+
 func fmtMsg(message interface{}) string {
 	switch msg := message.(type) {
 	case invocationMessage:
-- 
2.43.0


From ee4d8cec0ceb10ba6c1182e4bcd0dc0ef3a3c3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:37 +0000
Subject: [PATCH 14/61] fix: let every cancellation of a stream take effect

The counter of cancellations was never decremented, so after maxCancels
cancellations no stream of the connection could be canceled anymore.
Cancellations of finished or unknown streams used up the limit, too, or canceled
a later stream with this id. A canceled stream which did not produce items was
never completed, and its goroutine remained after the end of the connection.
---
 loop.go     | 13 ++++++++
 streamer.go | 87 ++++++++++++++++++++++++++++++++++++++++++-----------
 2 files changed, 82 insertions(+), 18 deletions(-)

diff --git a/loop.go b/loop.go
index 73df225..8156cc0 100644
--- a/loop.go
+++ b/loop.go
@@ -181,6 +181,9 @@ func (l *loop) PushStreams(method, id string, arguments ...interface{}) (<-chan
 			invokeArgs = append(invokeArgs, arg)
 		}
 	}
+	for _, streamID := range streamIds {
+		l.streamer.Announce(streamID)
+	}
 	// Tell the server we are streaming now
 	if err := l.hubConn.SendInvocationWithStreamIds(id, method, invokeArgs, streamIds); err != nil {
 		l.invokeClient.deleteInvocation(id)
@@ -217,6 +220,9 @@ func (l *loop) handleInvocationMessage(invocation invocationMessage) {
 		_ = l.info.Log(evt, "buildMethodArguments", "error", err, "name", invocation.Target, react, "send completion with error")
 		l.completeWithError(invocation, err.Error())
 	} else {
+		if invocation.Type == 4 && invocation.InvocationID != "" {
+			l.streamer.Announce(invocation.InvocationID)
+		}
 		// hub method might take a long time
 		go func() {
 			returned := false
@@ -253,6 +259,9 @@ func (l *loop) returnInvocationResult(invocation invocationMessage, result []ref
 		// An error as last return value is not part of the result, but tells if the method failed
 		if last := len(result) - 1; last >= 0 && result[last].Type() == errorType {
 			if err, ok := result[last].Interface().(error); ok {
+				if invocation.Type == 4 {
+					l.streamer.Forget(invocation.InvocationID)
+				}
 				errorText := fmt.Sprintf("%v", err)
 				if errorText == "" {
 					errorText = fmt.Sprintf("%T", err)
@@ -288,6 +297,7 @@ func (l *loop) returnInvocationResult(invocation invocationMessage, result []ref
 			case 4:
 				// Stream invocation of method with no stream result.
 				// Return a single StreamItem and an empty Completion
+				l.streamer.Forget(invocation.InvocationID)
 				l.sendResult(invocation, streamItem, result)
 				_ = l.hubConn.Completion(invocation.InvocationID, nil, "")
 			}
@@ -382,6 +392,9 @@ func (l *loop) recoverInvocationPanic(invocation invocationMessage) {
 			if !l.party.enableDetailedErrors() {
 				stack = ""
 			}
+			if invocation.Type == 4 {
+				l.streamer.Forget(invocation.InvocationID)
+			}
 			_ = l.hubConn.Completion(invocation.InvocationID, nil, fmt.Sprintf("%v\n%v", err, stack))
 		}
 	}
diff --git a/streamer.go b/streamer.go
index faf8486..0dc3357 100644
--- a/streamer.go
+++ b/streamer.go
@@ -7,42 +7,93 @@ import (
 )
 
 type streamer struct {
+	mx          sync.Mutex
+	streams     map[string]chan struct{} // announced and running streams. The channel is closed when the stream is canceled
 	cancels     sync.Map
 	cancelCount int64 // atomic; tracks entries in cancels for the cap check
 	maxCancels  uint
 	conn        HubConnection
 }
 
+// Announce makes sure that a stream can be canceled even when it has not been started yet
+func (s *streamer) Announce(invocationID string) {
+	s.mx.Lock()
+	defer s.mx.Unlock()
+	s.announce(invocationID)
+}
+
+func (s *streamer) announce(invocationID string) chan struct{} {
+	stop, ok := s.streams[invocationID]
+	if !ok {
+		// An older cancel for this id was not meant for this stream
+		s.deleteCancel(invocationID)
+		if s.streams == nil {
+			s.streams = make(map[string]chan struct{})
+		}
+		stop = make(chan struct{})
+		s.streams[invocationID] = stop
+	}
+	return stop
+}
+
+// Forget is called when a stream has ended or an announced stream will not be started
+func (s *streamer) Forget(invocationID string) {
+	s.mx.Lock()
+	defer s.mx.Unlock()
+	delete(s.streams, invocationID)
+	s.deleteCancel(invocationID)
+}
+
+func (s *streamer) deleteCancel(invocationID string) {
+	if _, loaded := s.cancels.LoadAndDelete(invocationID); loaded {
+		atomic.AddInt64(&s.cancelCount, -1)
+	}
+}
+
 func (s *streamer) Start(invocationID string, reflectedChannel reflect.Value) {
+	s.mx.Lock()
+	stop := s.announce(invocationID)
+	s.mx.Unlock()
 	go func() {
-	loop:
+		cases := []reflect.SelectCase{
+			{Dir: reflect.SelectRecv, Chan: reflectedChannel},
+			{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(stop)},
+			{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(s.conn.Context().Done())},
+		}
 		for {
-			// Waits for channel, so might hang
-			if chanResult, ok := reflectedChannel.Recv(); ok {
-				if _, ok := s.cancels.Load(invocationID); ok {
-					s.cancels.Delete(invocationID)
-					_ = s.conn.Completion(invocationID, nil, "")
-					break loop
-				}
-				if s.conn.Context().Err() != nil {
-					break loop
-				}
-				_ = s.conn.StreamItem(invocationID, chanResult.Interface())
-			} else {
-				if s.conn.Context().Err() == nil {
-					_ = s.conn.Completion(invocationID, nil, "")
-				}
-				break loop
+			// Waits for channel, so might hang until the stream is canceled or the connection ends
+			chosen, chanResult, ok := reflect.Select(cases)
+			if s.conn.Context().Err() != nil {
+				s.Forget(invocationID)
+				return
 			}
+			select {
+			case <-stop:
+				ok = false
+			default:
+			}
+			if chosen != 0 || !ok {
+				s.Forget(invocationID)
+				_ = s.conn.Completion(invocationID, nil, "")
+				return
+			}
+			_ = s.conn.StreamItem(invocationID, chanResult.Interface())
 		}
 	}()
 }
 
 func (s *streamer) Stop(invocationID string) {
-	if s.maxCancels > 0 && atomic.LoadInt64(&s.cancelCount) >= int64(s.maxCancels) {
+	s.mx.Lock()
+	defer s.mx.Unlock()
+	stop, ok := s.streams[invocationID]
+	// Cancels for unknown streams have no effect, so remember only some of them
+	if !ok && s.maxCancels > 0 && atomic.LoadInt64(&s.cancelCount) >= int64(s.maxCancels) {
 		return
 	}
 	if _, loaded := s.cancels.LoadOrStore(invocationID, struct{}{}); !loaded {
 		atomic.AddInt64(&s.cancelCount, 1)
+		if ok {
+			close(stop)
+		}
 	}
 }
-- 
2.43.0


From 64efbaffd03b7d5f95cbb2913466f854614c9906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:27 +0000
Subject: [PATCH 15/61] fix: end every pending call and stream with its
 connection

A pulled stream did not end with its connection and kept a goroutine spinning. A
call canceled with the client or completed with an undecodable result looked like
it had succeeded, and a call sent while the message loop ended waited forever.
The error of a stream was able to overtake its items, and an item which timed out
was delivered later, after its successors. Completing an upload stream with an
error ended the connection.
---
 Invokeresult.go | 53 ++++++++++++++++++++-------
 client.go       |  6 ++-
 invokeclient.go | 27 +++++++++++---
 loop.go         |  6 ++-
 streamclient.go | 97 +++++++++++++++++++++++++++----------------------
 5 files changed, 124 insertions(+), 65 deletions(-)

diff --git a/Invokeresult.go b/Invokeresult.go
index a602ae1..bb2b2c2 100644
--- a/Invokeresult.go
+++ b/Invokeresult.go
@@ -12,34 +12,61 @@ type InvokeResult struct {
 
 // newInvokeResultChan combines a value result and an error result channel into one InvokeResult channel
 // The InvokeResult channel is automatically closed when both input channels are closed.
+// When ctx is canceled before, the InvokeResult channel delivers what has already been received and the error of ctx.
 func newInvokeResultChan(ctx context.Context, resultChan <-chan interface{}, errChan <-chan error) <-chan InvokeResult {
 	ch := make(chan InvokeResult, 1)
 	go func(ctx context.Context, ch chan InvokeResult, resultChan <-chan interface{}, errChan <-chan error) {
-		var resultChanClosed, errChanClosed bool
-	loop:
-		for !resultChanClosed || !errChanClosed {
+		defer close(ch)
+		// forwardReceived forwards the values which have been received before an error
+		forwardReceived := func() {
+			for {
+				select {
+				case value, ok := <-resultChan:
+					if !ok {
+						resultChan = nil
+						return
+					}
+					ch <- InvokeResult{Value: value}
+				default:
+					return
+				}
+			}
+		}
+		for resultChan != nil || errChan != nil {
 			select {
-			case <-ctx.Done():
-				break loop
 			case value, ok := <-resultChan:
 				if !ok {
-					resultChanClosed = true
+					resultChan = nil
 				} else {
-					ch <- InvokeResult{
-						Value: value,
-					}
+					ch <- InvokeResult{Value: value}
 				}
 			case err, ok := <-errChan:
 				if !ok {
-					errChanClosed = true
+					errChan = nil
 				} else {
-					ch <- InvokeResult{
-						Error: err,
+					forwardReceived()
+					ch <- InvokeResult{Error: err}
+				}
+			case <-ctx.Done():
+				forwardReceived()
+				if resultChan == nil && errChan == nil {
+					return
+				}
+				err := ctx.Err()
+				select {
+				case receivedErr, ok := <-errChan:
+					if ok {
+						err = receivedErr
+					} else if resultChan == nil {
+						// Nothing is missing
+						return
 					}
+				default:
 				}
+				ch <- InvokeResult{Error: err}
+				return
 			}
 		}
-		close(ch)
 	}(ctx, ch, resultChan, errChan)
 	return ch
 }
diff --git a/client.go b/client.go
index 89b7c48..ff4f644 100644
--- a/client.go
+++ b/client.go
@@ -441,7 +441,8 @@ func (c *client) Invoke(method string, arguments ...interface{}) <-chan InvokeRe
 			return
 		}
 		go func() {
-			for ir := range irCh {
+			// There is not more than one result
+			if ir, ok := <-irCh; ok {
 				ch <- ir
 			}
 			close(ch)
@@ -513,7 +514,8 @@ func (c *client) PushStreams(method string, arguments ...interface{}) <-chan Inv
 			return
 		}
 		go func() {
-			for ir := range pushCh {
+			// There is not more than one result
+			if ir, ok := <-pushCh; ok {
 				irCh <- ir
 			}
 			close(irCh)
diff --git a/invokeclient.go b/invokeclient.go
index 0708286..fee1a29 100644
--- a/invokeclient.go
+++ b/invokeclient.go
@@ -49,14 +49,30 @@ func (i *invokeClient) deleteInvocation(id string) {
 	i.mx.Unlock()
 }
 
+// failInvocation ends a pending invocation with an error
+func (i *invokeClient) failInvocation(id string, err error) {
+	i.mx.Lock()
+	if r, ok := i.resultChans[id]; ok {
+		select {
+		case r.errChan <- err:
+		default:
+			// The invocation has already got an error
+		}
+	}
+	i.mx.Unlock()
+	i.deleteInvocation(id)
+}
+
 func (i *invokeClient) cancelAllInvokes() {
 	i.mx.Lock()
 	for _, r := range i.resultChans {
+		select {
+		case r.errChan <- errors.New("message loop ended"):
+		default:
+			// The invocation has already got an error
+		}
 		close(r.resultChan)
-		go func(errChan chan error) {
-			errChan <- errors.New("message loop ended")
-			close(errChan)
-		}(r.errChan)
+		close(r.errChan)
 	}
 	// Clear map
 	i.resultChans = make(map[string]invocationResultChans)
@@ -80,7 +96,7 @@ func (i *invokeClient) receiveCompletionItem(completion completionMessage) error
 			done := make(chan struct{})
 			go func() {
 				ir.errChan <- errors.New(completion.Error)
-				done <- struct{}{}
+				close(done)
 			}()
 			select {
 			case <-done:
@@ -92,6 +108,7 @@ func (i *invokeClient) receiveCompletionItem(completion completionMessage) error
 		if completion.Result != nil {
 			var result interface{}
 			if err := i.protocol.UnmarshalArgument(completion.Result, &result); err != nil {
+				i.failInvocation(completion.InvocationID, err)
 				return err
 			}
 			done := make(chan struct{})
diff --git a/loop.go b/loop.go
index 8156cc0..d336036 100644
--- a/loop.go
+++ b/loop.go
@@ -143,12 +143,14 @@ msgLoop:
 		}
 	}
 	l.party.onDisconnected(l.hubConn)
+	// From now on, no invocation can be sent anymore. So after cancelAllInvokes, none is pending
+	l.hubConn.Abort()
+	l.invokeClient.cancelAllInvokes()
+	l.streamClient.closeAllUpstreamChannels()
 	if err != nil {
 		_ = l.hubConn.Close(fmt.Sprintf("%v", err), l.party.allowReconnect())
 	}
 	_ = l.dbg.Log(evt, "message loop ended")
-	l.invokeClient.cancelAllInvokes()
-	l.hubConn.Abort()
 	return err
 }
 
diff --git a/streamclient.go b/streamclient.go
index fbdc0f7..9ce3424 100644
--- a/streamclient.go
+++ b/streamclient.go
@@ -85,23 +85,25 @@ func (c *streamClient) receiveStreamItem(streamItem streamItemMessage) error {
 	return fmt.Errorf(`unknown stream id "%v"`, streamItem.InvocationID)
 }
 
-func (c *streamClient) sendChanValSave(upChan reflect.Value, chanVal reflect.Value) error {
-	done := make(chan error)
-	go func() {
-		defer func() {
-			if r := recover(); r != nil {
-				done <- fmt.Errorf("%v", r)
-			}
-		}()
-		upChan.Send(chanVal)
-		done <- nil
+func (c *streamClient) sendChanValSave(upChan reflect.Value, chanVal reflect.Value) (err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			err = fmt.Errorf("%v", r)
+		}
 	}()
-	select {
-	case err := <-done:
-		return err
-	case <-time.After(c.chanReceiveTimeout):
+	if upChan.TrySend(chanVal) {
+		return nil
+	}
+	timer := time.NewTimer(c.chanReceiveTimeout)
+	defer timer.Stop()
+	chosen, _, _ := reflect.Select([]reflect.SelectCase{
+		{Dir: reflect.SelectSend, Chan: upChan, Send: chanVal},
+		{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(timer.C)},
+	})
+	if chosen == 1 {
 		return &hubChanTimeoutError{fmt.Sprintf("timeout (%v) waiting for hub to receive client streamed value", c.chanReceiveTimeout)}
 	}
+	return nil
 }
 
 type hubChanTimeoutError struct {
@@ -119,40 +121,49 @@ func (c *streamClient) handlesInvocationID(invocationID string) bool {
 	return ok
 }
 
+// closeAllUpstreamChannels is called when the connection has ended. No stream will receive items anymore
+func (c *streamClient) closeAllUpstreamChannels() {
+	c.mx.Lock()
+	defer c.mx.Unlock()
+	for _, upChan := range c.upstreamChannels {
+		upChan.Close()
+	}
+	c.upstreamChannels = make(map[string]reflect.Value)
+	c.runningStreams = make(map[string]bool)
+}
+
 func (c *streamClient) receiveCompletionItem(completion completionMessage, invokeClient *invokeClient) error {
 	c.mx.Lock()
-	channel, ok := c.upstreamChannels[completion.InvocationID]
+	_, ok := c.upstreamChannels[completion.InvocationID]
+	running := c.runningStreams[completion.InvocationID]
 	c.mx.Unlock()
-	if ok {
-		var err error
-		if completion.Error != "" {
-			// Push error to the error channel
+	if !ok {
+		return fmt.Errorf("received completion with unknown id %v", completion.InvocationID)
+	}
+	var err error
+	if completion.Error != "" {
+		// Push error to the error channel. Only streams pulled by this party have one
+		if invokeClient.handlesInvocationID(completion.InvocationID) {
 			err = invokeClient.receiveCompletionItem(completion)
+		}
+	} else if completion.Result != nil {
+		if running {
+			err = fmt.Errorf("client side streaming: received completion with result %v", completion)
 		} else {
-			if completion.Result != nil {
-				c.mx.Lock()
-				running := c.runningStreams[completion.InvocationID]
-				c.mx.Unlock()
-				if running {
-					err = fmt.Errorf("client side streaming: received completion with result %v", completion)
-				} else {
-					// handle result like a stream item
-					err = c.receiveStreamItem(streamItemMessage{
-						Type:         2,
-						InvocationID: completion.InvocationID,
-						Item:         completion.Result,
-					})
-				}
-			}
+			// handle result like a stream item
+			err = c.receiveStreamItem(streamItemMessage{
+				Type:         2,
+				InvocationID: completion.InvocationID,
+				Item:         completion.Result,
+			})
+		}
+		if err != nil {
+			invokeClient.failInvocation(completion.InvocationID, err)
 		}
-		channel.Close()
-		// Close error channel
-		invokeClient.deleteInvocation(completion.InvocationID)
-		c.mx.Lock()
-		delete(c.upstreamChannels, completion.InvocationID)
-		delete(c.runningStreams, completion.InvocationID)
-		c.mx.Unlock()
-		return err
 	}
-	return fmt.Errorf("received completion with unknown id %v", completion.InvocationID)
+	// Close stream channel
+	c.deleteUpstreamChannel(completion.InvocationID)
+	// Close error channel
+	invokeClient.deleteInvocation(completion.InvocationID)
+	return err
 }
-- 
2.43.0


From 31fe508f050cf4fd5720e4a7c41fae2b2542fd0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:41 +0000
Subject: [PATCH 16/61] fix: keep the client state in accordance with its
 connection

The state Connected of an ended connection could overwrite the states
following it, a failed attempt to reconnect used the close message of a
former connection, the backoff was not always reset after a successful
connection, a cancelled client stayed connecting when it was waiting for
its backoff, a failed handshake was repeated on the same connection, and
State, Stop and all calls were blocked while connecting.
---
 client.go | 144 ++++++++++++++++++++++++++++--------------------------
 1 file changed, 75 insertions(+), 69 deletions(-)

diff --git a/client.go b/client.go
index ff4f644..c9fcae6 100644
--- a/client.go
+++ b/client.go
@@ -8,7 +8,6 @@ import (
 	"os"
 	"reflect"
 	"sync"
-	"sync/atomic"
 	"time"
 
 	"github.com/cenkalti/backoff/v4"
@@ -175,49 +174,36 @@ func (c *client) Start() {
 
 		for {
 			c.setErr(nil)
-			// Listen for state change to ClientConnected and signal backoff Reset then.
-			stateChangeChan := make(chan ClientState, 1)
-			var connected atomic.Value
-			connected.Store(false)
-			cancelObserve := c.ObserveStateChanged(stateChangeChan)
-			go func() {
-				for range stateChangeChan {
-					if c.State() == ClientConnected {
-						connected.Store(true)
-						return
-					}
-				}
-			}()
 			// RUN!
-			err := c.run()
+			loop, err := c.run()
 			if err != nil {
 				_ = c.info.Log("connect", fmt.Sprintf("%v", err))
 				c.setErr(err)
 			}
-			shouldEnd := c.shouldClientEnd()
-			cancelObserve()
-			if shouldEnd {
+			if c.shouldClientEnd(loop) {
 				return
 			}
 
 			// When the client has connected, BackOff should be reset
-			if connected.Load().(bool) {
+			if loop != nil {
 				boff.Reset()
 			}
 			// Reconnect after BackOff
 			nextBackoff := boff.NextBackOff()
 			// Check for exceeded backoff
 			if nextBackoff == backoff.Stop {
-				c.setState(ClientClosed)
 				c.setErr(errors.New("backoff exceeded"))
+				c.setState(ClientClosed)
 				return
 			}
+			c.setState(ClientConnecting)
 			select {
 			case <-time.After(nextBackoff):
 			case <-c.ctx.Done():
+				c.setErr(c.ctx.Err())
+				c.setState(ClientClosed)
 				return
 			}
-			c.setState(ClientConnecting)
 		}
 	}()
 }
@@ -231,25 +217,30 @@ func (c *client) Stop() {
 	}
 }
 
-func (c *client) run() error {
+// run connects and runs the loop. The returned loop is nil when the client was not able to connect.
+func (c *client) run() (*loop, error) {
 	// negotiate and so on
-	protocol, received, err := c.setupConnectionAndProtocol()
+	conn, protocol, received, err := c.setupConnectionAndProtocol()
 	if err != nil {
-		return err
+		return nil, err
 	}
 
-	loop := newLoop(c, c.conn, protocol, received)
+	loop := newLoop(c, conn, protocol, received)
 	c.mx.Lock()
 	c.loop = loop
 	c.mx.Unlock()
 	// Broadcast when loop is connected
 	isLoopConnected := make(chan struct{}, 1)
+	stateIsSet := make(chan struct{})
 	go func() {
+		defer close(stateIsSet)
 		<-isLoopConnected
 		c.setState(ClientConnected)
 	}()
 	// Run the loop
 	err = loop.Run(isLoopConnected)
+	// The state of the ended connection should not overwrite the states following
+	<-stateIsSet
 
 	if err == nil {
 		err = loop.hubConn.Close("", false) // allowReconnect value is ignored as servers never initiate a connection
@@ -260,10 +251,10 @@ func (c *client) run() error {
 	c.conn = nil
 	c.mx.Unlock()
 
-	return err
+	return loop, err
 }
 
-func (c *client) shouldClientEnd() bool {
+func (c *client) shouldClientEnd(loop *loop) bool {
 	// Canceled?
 	if c.ctx.Err() != nil {
 		c.setErr(c.ctx.Err())
@@ -276,39 +267,44 @@ func (c *client) shouldClientEnd() bool {
 		return true
 	}
 	// Reconnecting not allowed
-	if c.loop != nil && c.loop.closeMessage != nil && !c.loop.closeMessage.AllowReconnect {
+	if loop != nil && loop.closeMessage != nil && !loop.closeMessage.AllowReconnect {
 		c.setState(ClientClosed)
 		return true
 	}
 	return false
 }
 
-func (c *client) setupConnectionAndProtocol() (hubProtocol, []byte, error) {
-	return func() (hubProtocol, []byte, error) {
-		c.mx.Lock()
-		defer c.mx.Unlock()
+func (c *client) setupConnectionAndProtocol() (Connection, hubProtocol, []byte, error) {
+	c.mx.RLock()
+	conn := c.conn
+	c.mx.RUnlock()
 
-		if c.conn == nil {
-			if c.connectionFactory == nil {
-				return nil, nil, ErrUnableToConnect
-			}
-			var err error
-			c.conn, err = c.connectionFactory()
-			if err != nil {
-				return nil, nil, err
-			}
+	if conn == nil {
+		if c.connectionFactory == nil {
+			return nil, nil, nil, ErrUnableToConnect
 		}
-		// Pass maximum receive message size to a potential websocket connection
-		if wsConn, ok := c.conn.(*webSocketConnection); ok {
-			wsConn.conn.SetReadLimit(int64(c.maximumReceiveMessageSize()))
-		}
-		protocol, received, err := c.processHandshake()
+		var err error
+		conn, err = c.connectionFactory()
 		if err != nil {
-			return nil, nil, err
+			return nil, nil, nil, err
 		}
-
-		return protocol, received, nil
-	}()
+		c.mx.Lock()
+		c.conn = conn
+		c.mx.Unlock()
+	}
+	// Pass maximum receive message size to a potential websocket connection
+	if wsConn, ok := conn.(*webSocketConnection); ok {
+		wsConn.conn.SetReadLimit(int64(c.maximumReceiveMessageSize()))
+	}
+	protocol, received, err := c.processHandshake(conn)
+	if err != nil {
+		// The next attempt needs a new connection
+		c.mx.Lock()
+		c.conn = nil
+		c.mx.Unlock()
+		return nil, nil, nil, err
+	}
+	return conn, protocol, received, nil
 }
 
 func (c *client) State() ClientState {
@@ -431,11 +427,12 @@ func (c *client) Invoke(method string, arguments ...interface{}) <-chan InvokeRe
 			close(ch)
 			return
 		}
-		id := c.loop.GetNewID()
-		resultCh, errCh := c.loop.invokeClient.newInvocation(id)
+		loop := c.currentLoop()
+		id := loop.GetNewID()
+		resultCh, errCh := loop.invokeClient.newInvocation(id)
 		irCh := newInvokeResultChan(c.Context(), resultCh, errCh)
-		if err := c.loop.hubConn.SendInvocation(id, method, arguments); err != nil {
-			c.loop.invokeClient.deleteInvocation(id)
+		if err := loop.hubConn.SendInvocation(id, method, arguments); err != nil {
+			loop.invokeClient.deleteInvocation(id)
 			ch <- InvokeResult{Error: err}
 			close(ch)
 			return
@@ -459,10 +456,11 @@ func (c *client) Send(method string, arguments ...interface{}) <-chan error {
 			close(errCh)
 			return
 		}
-		id := c.loop.GetNewID()
-		_, sendErrCh := c.loop.invokeClient.newInvocation(id)
-		if err := c.loop.hubConn.SendInvocation(id, method, arguments); err != nil {
-			c.loop.invokeClient.deleteInvocation(id)
+		loop := c.currentLoop()
+		id := loop.GetNewID()
+		_, sendErrCh := loop.invokeClient.newInvocation(id)
+		if err := loop.hubConn.SendInvocation(id, method, arguments); err != nil {
+			loop.invokeClient.deleteInvocation(id)
 			errCh <- err
 			close(errCh)
 			return
@@ -485,7 +483,8 @@ func (c *client) PullStream(method string, arguments ...interface{}) <-chan Invo
 			close(irCh)
 			return
 		}
-		pullCh := c.loop.PullStream(method, c.loop.GetNewID(), arguments...)
+		loop := c.currentLoop()
+		pullCh := loop.PullStream(method, loop.GetNewID(), arguments...)
 		go func() {
 			for ir := range pullCh {
 				irCh <- ir
@@ -507,7 +506,8 @@ func (c *client) PushStreams(method string, arguments ...interface{}) <-chan Inv
 			close(irCh)
 			return
 		}
-		pushCh, err := c.loop.PushStreams(method, c.loop.GetNewID(), arguments...)
+		loop := c.currentLoop()
+		pushCh, err := loop.PushStreams(method, loop.GetNewID(), arguments...)
 		if err != nil {
 			irCh <- InvokeResult{Error: err}
 			close(irCh)
@@ -524,6 +524,12 @@ func (c *client) PushStreams(method string, arguments ...interface{}) <-chan Inv
 	return irCh
 }
 
+func (c *client) currentLoop() *loop {
+	c.mx.RLock()
+	defer c.mx.RUnlock()
+	return c.loop
+}
+
 func (c *client) waitForConnected() <-chan error {
 	return c.WaitForState(context.Background(), ClientConnected)
 }
@@ -574,21 +580,21 @@ func (c *client) prefixLoggers(connectionID string) (info StructuredLogger, dbg
 
 // processHandshake processes the handshake. Additionally to the protocol, it returns the bytes of messages
 // which have been received together with the handshake response.
-func (c *client) processHandshake() (hubProtocol, []byte, error) {
-	if err := c.sendHandshakeRequest(); err != nil {
+func (c *client) processHandshake(conn Connection) (hubProtocol, []byte, error) {
+	if err := c.sendHandshakeRequest(conn); err != nil {
 		return nil, nil, err
 	}
-	return c.receiveHandshakeResponse()
+	return c.receiveHandshakeResponse(conn)
 }
 
-func (c *client) sendHandshakeRequest() error {
-	info, dbg := c.prefixLoggers(c.conn.ConnectionID())
+func (c *client) sendHandshakeRequest(conn Connection) error {
+	info, dbg := c.prefixLoggers(conn.ConnectionID())
 	request := fmt.Sprintf("{\"protocol\":\"%v\",\"version\":1}\u001e", c.format)
 	ctx, cancelWrite := context.WithTimeout(c.Context(), c.HandshakeTimeout())
 	defer cancelWrite()
 	_, err := ReadWriteWithContext(ctx,
 		func() (int, error) {
-			return c.conn.Write([]byte(request))
+			return conn.Write([]byte(request))
 		}, func() {})
 	if err != nil {
 		_ = info.Log(evt, "handshake sent", "msg", request, "error", err)
@@ -598,11 +604,11 @@ func (c *client) sendHandshakeRequest() error {
 	return nil
 }
 
-func (c *client) receiveHandshakeResponse() (hubProtocol, []byte, error) {
-	info, dbg := c.prefixLoggers(c.conn.ConnectionID())
+func (c *client) receiveHandshakeResponse(conn Connection) (hubProtocol, []byte, error) {
+	info, dbg := c.prefixLoggers(conn.ConnectionID())
 	ctx, cancelRead := context.WithTimeout(c.Context(), c.HandshakeTimeout())
 	defer cancelRead()
-	rawHandshake, received, err := readHandshake(ctx, c.conn)
+	rawHandshake, received, err := readHandshake(ctx, conn)
 	if err != nil {
 		return nil, nil, err
 	}
-- 
2.43.0


From 0934eb050afb47a10c762fc1d3bb7bff5219ce3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:59 +0000
Subject: [PATCH 17/61] fix: deliver every client state to all observers in the
 order they occurred

One observer which did not read blocked the client, states could be
delivered out of order, not at all or to a channel already closed, and
WaitForState missed states which were left quickly.
---
 client.go | 112 +++++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 77 insertions(+), 35 deletions(-)

diff --git a/client.go b/client.go
index c9fcae6..3b5d8fc 100644
--- a/client.go
+++ b/client.go
@@ -120,13 +120,12 @@ func NewClient(ctx context.Context, options ...func(Party) error) (Client, error
 	ctx, cancelFunc = context.WithCancel(ctx)
 	info, dbg := buildInfoDebugLogger(log.NewLogfmtLogger(os.Stderr), true)
 	c := &client{
-		state:            ClientCreated,
-		stateChangeChans: make([]chan ClientState, 0),
-		format:           "json",
-		partyBase:        newPartyBase(ctx, info, dbg),
-		lastID:           -1,
-		backoffFactory:   func() backoff.BackOff { return backoff.NewExponentialBackOff() },
-		cancelFunc:       cancelFunc,
+		state:          ClientCreated,
+		format:         "json",
+		partyBase:      newPartyBase(ctx, info, dbg),
+		lastID:         -1,
+		backoffFactory: func() backoff.BackOff { return backoff.NewExponentialBackOff() },
+		cancelFunc:     cancelFunc,
 	}
 	for _, option := range options {
 		if option != nil {
@@ -153,7 +152,7 @@ type client struct {
 	conn              Connection
 	connectionFactory func() (Connection, error)
 	state             ClientState
-	stateChangeChans  []chan ClientState
+	stateObservers    []*stateObserver
 	err               error
 	format            string
 	loop              *loop
@@ -320,20 +319,8 @@ func (c *client) setState(state ClientState) {
 	c.state = state
 	_ = c.dbg.Log("state", state)
 
-	for _, ch := range c.stateChangeChans {
-		go func(ch chan ClientState, state ClientState) {
-			c.mx.Lock()
-			defer c.mx.Unlock()
-
-			for _, cch := range c.stateChangeChans {
-				if cch == ch {
-					select {
-					case ch <- state:
-					case <-c.ctx.Done():
-					}
-				}
-			}
-		}(ch, state)
+	for _, o := range c.stateObservers {
+		o.push(state)
 	}
 }
 
@@ -341,25 +328,80 @@ func (c *client) ObserveStateChanged(ch chan ClientState) context.CancelFunc {
 	c.mx.Lock()
 	defer c.mx.Unlock()
 
-	c.stateChangeChans = append(c.stateChangeChans, ch)
+	o := &stateObserver{ch: ch, canceled: make(chan struct{})}
+	c.stateObservers = append(c.stateObservers, o)
 
 	return func() {
-		c.cancelObserveStateChanged(ch)
+		c.cancelObserveStateChanged(o)
 	}
 }
 
-func (c *client) cancelObserveStateChanged(ch chan ClientState) {
+func (c *client) cancelObserveStateChanged(o *stateObserver) {
 	c.mx.Lock()
 	defer c.mx.Unlock()
-	for i, cch := range c.stateChangeChans {
-		if cch == ch {
-			c.stateChangeChans = append(c.stateChangeChans[:i], c.stateChangeChans[i+1:]...)
-			close(ch)
+	for i, co := range c.stateObservers {
+		if co == o {
+			c.stateObservers = append(c.stateObservers[:i], c.stateObservers[i+1:]...)
+			o.cancel()
 			break
 		}
 	}
 }
 
+// stateObserver delivers all states to its channel, in the order they occurred
+type stateObserver struct {
+	ch         chan ClientState
+	canceled   chan struct{}
+	mx         sync.Mutex // guards pending and delivering
+	pending    []ClientState
+	delivering bool
+	deliverMx  sync.Mutex // held while sending to ch
+}
+
+func (o *stateObserver) push(state ClientState) {
+	o.mx.Lock()
+	defer o.mx.Unlock()
+	o.pending = append(o.pending, state)
+	if !o.delivering {
+		o.delivering = true
+		go o.deliver()
+	}
+}
+
+func (o *stateObserver) deliver() {
+	o.deliverMx.Lock()
+	defer o.deliverMx.Unlock()
+	for {
+		o.mx.Lock()
+		if len(o.pending) == 0 {
+			o.delivering = false
+			o.mx.Unlock()
+			return
+		}
+		state := o.pending[0]
+		o.pending = o.pending[1:]
+		o.mx.Unlock()
+		select {
+		case <-o.canceled:
+			return
+		default:
+		}
+		select {
+		case o.ch <- state:
+		case <-o.canceled:
+			return
+		}
+	}
+}
+
+func (o *stateObserver) cancel() {
+	close(o.canceled)
+	// Nothing is sent to ch anymore when the delivery has ended
+	o.deliverMx.Lock()
+	defer o.deliverMx.Unlock()
+	close(o.ch)
+}
+
 func (c *client) Err() error {
 	c.mx.RLock()
 	defer c.mx.RUnlock()
@@ -374,7 +416,7 @@ func (c *client) setErr(err error) {
 
 func (c *client) WaitForState(ctx context.Context, waitFor ClientState) <-chan error {
 	ch := make(chan error, 1)
-	if c.waitingIsOver(waitFor, ch) {
+	if c.waitingIsOver(c.State(), waitFor, ch) {
 		close(ch)
 		return ch
 	}
@@ -383,13 +425,13 @@ func (c *client) WaitForState(ctx context.Context, waitFor ClientState) <-chan e
 	go func(waitFor ClientState) {
 		defer close(ch)
 		defer cancel()
-		if c.waitingIsOver(waitFor, ch) {
+		if c.waitingIsOver(c.State(), waitFor, ch) {
 			return
 		}
 		for {
 			select {
-			case <-stateCh:
-				if c.waitingIsOver(waitFor, ch) {
+			case state := <-stateCh:
+				if c.waitingIsOver(state, waitFor, ch) {
 					return
 				}
 			case <-ctx.Done():
@@ -404,8 +446,8 @@ func (c *client) WaitForState(ctx context.Context, waitFor ClientState) <-chan e
 	return ch
 }
 
-func (c *client) waitingIsOver(waitFor ClientState, ch chan<- error) bool {
-	switch c.State() {
+func (c *client) waitingIsOver(state ClientState, waitFor ClientState, ch chan<- error) bool {
+	switch state {
 	case waitFor:
 		return true
 	case ClientCreated:
-- 
2.43.0


From f26320436fc579818783cf5a00ea6fd87954a077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:53 +0000
Subject: [PATCH 18/61] fix: write messages one after the other and do not let
 a stalled peer block the message loop

Concurrent writes were left to the transport, which e.g. answers concurrent
SSE requests with 409. A peer which did not read blocked the message loop
in Ping, in error completions or in Close, so the timeout did not work and
Serve and Stop did not return.
---
 hubconnection.go | 58 ++++++++++++++++++++++++++++++++++++------------
 loop.go          | 22 +++++++++++++-----
 2 files changed, 60 insertions(+), 20 deletions(-)

diff --git a/hubconnection.go b/hubconnection.go
index f64f407..f8a1005 100644
--- a/hubconnection.go
+++ b/hubconnection.go
@@ -41,6 +41,7 @@ func newHubConnection(connection Connection, protocol hubProtocol, maximumReceiv
 		mx:                        sync.Mutex{},
 		connection:                connection,
 		maximumReceiveMessageSize: maximumReceiveMessageSize,
+		writing:                   make(chan struct{}, 1),
 		items:                     &sync.Map{},
 		info:                      info,
 	}
@@ -57,7 +58,8 @@ type defaultHubConnection struct {
 	mx                        sync.Mutex
 	connection                Connection
 	maximumReceiveMessageSize uint
-	received                  []byte // read from the connection together with the handshake
+	received                  []byte        // read from the connection together with the handshake
+	writing                   chan struct{} // occupied while a message is written, so messages are written one after the other
 	items                     *sync.Map
 	lastWriteStamp            time.Time
 	info                      StructuredLogger
@@ -73,7 +75,41 @@ func (c *defaultHubConnection) Close(errorText string, allowReconnect bool) erro
 		Error:          errorText,
 		AllowReconnect: allowReconnect,
 	}
-	return c.protocol.WriteMessage(closeMessage, c.connection)
+	// c.ctx might be already canceled, but the peer should be informed anyway, if it is still reading
+	ctx, cancel := context.WithTimeout(context.Background(), closeTimeout)
+	defer cancel()
+	return c.write(ctx, closeMessage)
+}
+
+// closeTimeout is how long Close waits for a peer which does not read
+const closeTimeout = 5 * time.Second
+
+// write writes one message after the other. It returns when the message is written or ctx is done
+func (c *defaultHubConnection) write(ctx context.Context, message interface{}) error {
+	select {
+	case c.writing <- struct{}{}:
+	case <-ctx.Done():
+		return ctx.Err()
+	}
+	if ctx.Err() != nil {
+		<-c.writing
+		return ctx.Err()
+	}
+	c.mx.Lock()
+	c.lastWriteStamp = time.Now()
+	c.mx.Unlock()
+	e := make(chan error, 1)
+	go func() {
+		err := c.protocol.WriteMessage(message, c.connection)
+		<-c.writing
+		e <- err
+	}()
+	select {
+	case err := <-e:
+		return err
+	case <-ctx.Done():
+		return ctx.Err()
+	}
 }
 
 func (c *defaultHubConnection) ConnectionID() string {
@@ -222,24 +258,18 @@ func (c *defaultHubConnection) LastWriteStamp() time.Time {
 }
 
 func (c *defaultHubConnection) writeMessage(message interface{}) error {
-	c.mx.Lock()
-	c.lastWriteStamp = time.Now()
-	c.mx.Unlock()
 	err := func() error {
 		if c.ctx.Err() != nil {
 			return fmt.Errorf("hubConnection canceled: %w", c.ctx.Err())
 		}
-		e := make(chan error, 1)
-		go func() { e <- c.protocol.WriteMessage(message, c.connection) }()
-		select {
-		case <-c.ctx.Done():
+		err := c.write(c.ctx, message)
+		if c.ctx.Err() != nil && err != nil {
 			return fmt.Errorf("hubConnection canceled: %w", c.ctx.Err())
-		case err := <-e:
-			if err != nil {
-				c.Abort()
-			}
-			return err
 		}
+		if err != nil {
+			c.Abort()
+		}
+		return err
 	}()
 	if err != nil {
 		_ = c.info.Log(evt, msgSend, "message", fmtMsg(message), "error", err)
diff --git a/loop.go b/loop.go
index d336036..40ecf3b 100644
--- a/loop.go
+++ b/loop.go
@@ -80,6 +80,7 @@ func (l *loop) Run(connected chan struct{}) (err error) {
 	}()
 	timeoutTicker := time.NewTicker(l.party.timeout())
 	keepAliveTicker := time.NewTicker(l.party.keepAliveInterval())
+	pinging := atomic.Bool{}
 msgLoop:
 	for {
 	pingLoop:
@@ -119,8 +120,13 @@ msgLoop:
 				nextPingIn := l.party.keepAliveInterval() - time.Since(l.hubConn.LastWriteStamp())
 
 				if nextPingIn <= 0 {
-					if err = l.hubConn.Ping(); err != nil {
-						break pingLoop
+					// When the peer does not read, Ping blocks. This should not prevent the timeout.
+					// When Ping fails, the hubConnection is canceled
+					if pinging.CompareAndSwap(false, true) {
+						go func() {
+							defer pinging.Store(false)
+							_ = l.hubConn.Ping()
+						}()
 					}
 					keepAliveTicker.Reset(l.party.keepAliveInterval())
 				} else {
@@ -251,7 +257,8 @@ func (l *loop) handleInvocationMessage(invocation invocationMessage) {
 // completeWithError sends a completion with error, but only when the caller waits for a completion
 func (l *loop) completeWithError(invocation invocationMessage, errorText string) {
 	if invocation.InvocationID != "" {
-		_ = l.hubConn.Completion(invocation.InvocationID, nil, errorText)
+		// When the peer does not read, this blocks. This should not block the message loop
+		go func() { _ = l.hubConn.Completion(invocation.InvocationID, nil, errorText) }()
 	}
 }
 
@@ -279,8 +286,11 @@ func (l *loop) returnInvocationResult(invocation invocationMessage, result []ref
 			// Simple invocation
 			case 1:
 				go func() {
-					// Recv might block, so run continue in a goroutine
-					if chanResult, ok := result[0].Recv(); ok {
+					// Receiving might block until the connection ends, so run continue in a goroutine
+					if _, chanResult, ok := reflect.Select([]reflect.SelectCase{
+						{Dir: reflect.SelectRecv, Chan: result[0]},
+						{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(l.hubConn.Context().Done())},
+					}); ok {
 						l.sendResult(invocation, completion, []reflect.Value{chanResult})
 					} else {
 
@@ -323,7 +333,7 @@ func (l *loop) handleStreamItemMessage(streamItemMessage streamItemMessage) erro
 	if err := l.streamClient.receiveStreamItem(streamItemMessage); err != nil {
 		switch t := err.(type) {
 		case *hubChanTimeoutError:
-			_ = l.hubConn.Completion(streamItemMessage.InvocationID, nil, t.Error())
+			go func() { _ = l.hubConn.Completion(streamItemMessage.InvocationID, nil, t.Error()) }()
 		default:
 			_ = l.info.Log(evt, msgRecv, "error", err, msg, fmtMsg(streamItemMessage), react, "close connection")
 			return err
-- 
2.43.0


From dde62e04d374715127d97e97b235be4920cae59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:19 +0000
Subject: [PATCH 19/61] fix: end the connection on undecodable MessagePack
 messages

Messages of unknown type were ignored and decoder panics (e.g. caused by
map keys which are not hashable) crashed the process.
---
 messagepackhubprotocol.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/messagepackhubprotocol.go b/messagepackhubprotocol.go
index d992e3b..5bd109e 100644
--- a/messagepackhubprotocol.go
+++ b/messagepackhubprotocol.go
@@ -75,7 +75,8 @@ func (m *messagePackHubProtocol) completeFrames(buf *bytes.Buffer) ([][]byte, er
 	}
 }
 
-func (m *messagePackHubProtocol) parseMessage(buf *bytes.Buffer) (interface{}, error) {
+func (m *messagePackHubProtocol) parseMessage(buf *bytes.Buffer) (message interface{}, err error) {
+	defer recoverDecoderPanic(&err)
 	decoder := msgpack.NewDecoder(buf)
 	// Default map decoding expects all maps to have string keys
 	decoder.SetMapDecoder(func(decoder *msgpack.Decoder) (interface{}, error) {
@@ -221,7 +222,15 @@ func (m *messagePackHubProtocol) parseMessage(buf *bytes.Buffer) (interface{}, e
 		}
 		return closeMessage, nil
 	}
-	return msg, nil
+	// Unknown message type
+	return hubMessage{Type: msgType}, nil
+}
+
+// recoverDecoderPanic turns a panic of the decoder, e.g. caused by map keys which can not be used as such, into an error
+func recoverDecoderPanic(err *error) {
+	if r := recover(); r != nil {
+		*err = fmt.Errorf("messagepack decoder: %v", r)
+	}
 }
 
 func (m *messagePackHubProtocol) decodeInvocationID(decoder *msgpack.Decoder) (string, error) {
@@ -385,7 +394,8 @@ func (m *messagePackHubProtocol) setMaxReceiveMessageSize(size uint) {
 }
 
 // UnmarshalArgument unmarshals raw bytes to a destination value. dst is the pointer to the destination value.
-func (m *messagePackHubProtocol) UnmarshalArgument(src interface{}, dst interface{}) error {
+func (m *messagePackHubProtocol) UnmarshalArgument(src interface{}, dst interface{}) (err error) {
+	defer recoverDecoderPanic(&err)
 	rawSrc, ok := src.(msgpack.RawMessage)
 	if !ok {
 		return fmt.Errorf("invalid source %#v for UnmarshalArgument", src)
-- 
2.43.0


From 6c8a5ec7e19980d65a049e9ed4da21bd7c7d97f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:51 +0000
Subject: [PATCH 20/61] fix: write the MessagePack close message as specified

The close message has no header, but a header was written and expected
(and not counted in the array length), so other implementations and this
one did not understand the close messages of each other. The former
format is still read.
---
 messagepackhubprotocol.go | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/messagepackhubprotocol.go b/messagepackhubprotocol.go
index 5bd109e..72286cf 100644
--- a/messagepackhubprotocol.go
+++ b/messagepackhubprotocol.go
@@ -8,6 +8,7 @@ import (
 
 	"github.com/go-kit/log"
 	"github.com/vmihailenco/msgpack/v5"
+	"github.com/vmihailenco/msgpack/v5/msgpcode"
 )
 
 type messagePackHubProtocol struct {
@@ -90,9 +91,18 @@ func (m *messagePackHubProtocol) parseMessage(buf *bytes.Buffer) (message interf
 	if err != nil {
 		return nil, err
 	}
-	// Ignore Header for all messages, except ping message that has no header
+	// Ignore Header for all messages, except ping and close message that have no header
 	// see message spec at https://github.com/dotnet/aspnetcore/blob/main/src/SignalR/docs/specs/HubProtocol.md#message-headers
-	if msgType != 6 {
+	hasHeader := msgType != 6
+	if msgType == 7 && msgLen > 1 {
+		// Former versions of this library sent the close message with header
+		code, err := decoder.PeekCode()
+		if err != nil {
+			return nil, err
+		}
+		hasHeader = msgpcode.IsFixedMap(code) || code == msgpcode.Map16 || code == msgpcode.Map32
+	}
+	if hasHeader {
 		_, err = decoder.DecodeMap()
 		if err != nil {
 			return nil, err
@@ -210,6 +220,7 @@ func (m *messagePackHubProtocol) parseMessage(buf *bytes.Buffer) (message interf
 			return nil, fmt.Errorf("invalid closeMessage length %v", msgLen)
 		}
 		closeMessage := closeMessage{Type: 7}
+		// DecodeString returns "" for nil
 		closeMessage.Error, err = decoder.DecodeString()
 		if err != nil {
 			return nil, err
@@ -344,12 +355,22 @@ func (m *messagePackHubProtocol) WriteMessage(message interface{}, writer io.Wri
 			return err
 		}
 	case closeMessage:
-		if err := encodeMsgHeader(encoder, 3, msg.Type); err != nil {
+		// The close message has no header
+		if err := encoder.EncodeArrayLen(3); err != nil {
 			return err
 		}
-		if err := encoder.EncodeString(msg.Error); err != nil {
+		if err := encoder.EncodeInt(int64(msg.Type)); err != nil {
 			return err
 		}
+		if msg.Error == "" {
+			if err := encoder.EncodeNil(); err != nil {
+				return err
+			}
+		} else {
+			if err := encoder.EncodeString(msg.Error); err != nil {
+				return err
+			}
+		}
 		if err := encoder.EncodeBool(msg.AllowReconnect); err != nil {
 			return err
 		}
-- 
2.43.0


From d63f5559f814680baab1e4d15c56e18988160d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:45 +0000
Subject: [PATCH 21/61] fix: use exactly one per-connection hub instance for a
 connection

Concurrent first uses created several instances, an instance was created
after the connection had been removed (and kept forever) and further ones
only for logging.
---
 server.go | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/server.go b/server.go
index 2b4496d..5e69963 100644
--- a/server.go
+++ b/server.go
@@ -150,23 +150,35 @@ func (s *server) availableTransports() []TransportType {
 
 func (s *server) onConnected(hc HubConnection) {
 	s.lifetimeManager.OnConnected(hc)
+	hub := s.lifeCycleTarget(hc)
+	if hub == nil {
+		return
+	}
 	go func() {
 		defer s.recoverHubLifeCyclePanic()
-		s.invocationTarget(hc).(HubInterface).OnConnected(hc.ConnectionID())
+		hub.OnConnected(hc.ConnectionID())
 	}()
 }
 
 func (s *server) onDisconnected(hc HubConnection) {
-	go func() {
-		defer s.recoverHubLifeCyclePanic()
-		s.invocationTarget(hc).(HubInterface).OnDisconnected(hc.ConnectionID())
-	}()
+	if hub := s.lifeCycleTarget(hc); hub != nil {
+		go func() {
+			defer s.recoverHubLifeCyclePanic()
+			hub.OnDisconnected(hc.ConnectionID())
+		}()
+	}
 	s.lifetimeManager.OnDisconnected(hc)
 
 	// Clean up the connection hub
 	s.removeConnectionHub(hc.ConnectionID())
 }
 
+// lifeCycleTarget gets the hub to call OnConnected and OnDisconnected on. It returns nil when there is none because of a panic
+func (s *server) lifeCycleTarget(hc HubConnection) HubInterface {
+	defer s.recoverHubLifeCyclePanic()
+	return s.invocationTarget(hc).(HubInterface)
+}
+
 func (s *server) invocationTarget(conn HubConnection) interface{} {
 	if s.perConnectionHubFactory != nil {
 		// Use per-connection hub factory
@@ -207,13 +219,13 @@ func (s *server) recoverHubLifeCyclePanic() {
 func (s *server) prefixLoggers(connectionID string) (info StructuredLogger, dbg StructuredLogger) {
 	hubType := reflect.TypeOf(nil)
 	if s.perConnectionHubFactory != nil {
-		// Create a temporary hub to get the type for logging
-		tempHub := s.perConnectionHubFactory(connectionID)
-		hubValue := reflect.ValueOf(tempHub)
-		if hubValue.Kind() == reflect.Ptr {
-			hubType = hubValue.Elem().Type()
+		// Do not use the factory just to get the type for logging, it should create one hub per connection only
+		if hub, exists := s.getConnectionHub(connectionID); exists {
+			hubValue := reflect.ValueOf(hub)
+			if hubValue.Kind() == reflect.Ptr {
+				hubType = hubValue.Elem().Type()
+			}
 		}
-		
 	} else if s.newHub != nil {
 		hubValue := reflect.ValueOf(s.newHub())
 		if hubValue.Kind() == reflect.Ptr {
-- 
2.43.0


From 06da78a5b18e4812d7de8fe7cdf72763f3482711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:45 +0000
Subject: [PATCH 22/61] fix: do not add connections to groups after they have
 been disconnected

---
 hublifetimemanager.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hublifetimemanager.go b/hublifetimemanager.go
index 7f3f4a2..2e0300f 100644
--- a/hublifetimemanager.go
+++ b/hublifetimemanager.go
@@ -111,6 +111,10 @@ func (d *defaultHubLifetimeManager) AddToGroup(groupName string, connectionID st
 	if client, ok := d.clients.Load(connectionID); ok {
 		gm, _ := d.groups.LoadOrStore(groupName, &groupMap{members: make(map[string]HubConnection)})
 		gm.(*groupMap).add(connectionID, client.(HubConnection))
+		// The connection might have been disconnected in the meantime
+		if _, ok := d.clients.Load(connectionID); !ok {
+			gm.(*groupMap).remove(connectionID)
+		}
 	}
 }
 
-- 
2.43.0


From a20c9d3153be5499bca4f028b2fc99806486b102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:21 +0000
Subject: [PATCH 23/61] fix: do not modify the options passed to
 HttpConnectionFactory

With more than one option, the reconnect of WithHttpConnection used other
options than the first connect.
---
 clientoptions.go | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/clientoptions.go b/clientoptions.go
index 4aed5e5..c3dad59 100644
--- a/clientoptions.go
+++ b/clientoptions.go
@@ -42,26 +42,22 @@ func WithConnector(connectionFactory func() (Connection, error)) func(Party) err
 // with WebSockets (if it is allowed by the HttpConnection options) and if this fails, falls back to a SSE based connection.
 func HttpConnectionFactory(ctx context.Context, address string, options ...func(*httpConnection) error) (Connection, error) {
 	conn := &httpConnection{}
-	for i, option := range options {
-		if err := option(conn); err != nil {
-			return nil, err
-		}
-		if conn.transports != nil {
-			// Remove the WithTransports option
-			options = append(options[:i], options[i+1:]...)
-			break
+	for _, option := range options {
+		if option != nil {
+			if err := option(conn); err != nil {
+				return nil, err
+			}
 		}
 	}
 	// If no WithTransports was given, NewHTTPConnection fallbacks to both
-	if conn.transports == nil {
+	if len(conn.transports) == 0 {
 		conn.transports = []TransportType{TransportWebSockets, TransportServerSentEvents}
 	}
 
 	for _, transport := range conn.transports {
 		// If Websockets are allowed, we try to connect with these
 		if transport == TransportWebSockets {
-			wsOptions := append(options, WithTransports(TransportWebSockets))
-			conn, err := NewHTTPConnection(ctx, address, wsOptions...)
+			conn, err := NewHTTPConnection(ctx, address, append(options[:len(options):len(options)], WithTransports(TransportWebSockets))...)
 			// If this is ok, return the conn
 			if err == nil {
 				return conn, err
@@ -72,8 +68,7 @@ func HttpConnectionFactory(ctx context.Context, address string, options ...func(
 	for _, transport := range conn.transports {
 		// If SSE is allowed, with fallback to try these
 		if transport == TransportServerSentEvents {
-			sseOptions := append(options, WithTransports(TransportServerSentEvents))
-			return NewHTTPConnection(ctx, address, sseOptions...)
+			return NewHTTPConnection(ctx, address, append(options[:len(options):len(options)], WithTransports(TransportServerSentEvents))...)
 		}
 	}
 	// None of the transports worked
-- 
2.43.0


From 0364af24fa91b609d37e44f83e399e8c5eed6d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:53 +0000
Subject: [PATCH 24/61] fix: make the SSE client work with all messages,
 negotiate versions and headers

Server-sent events were only understood when the reads of the response
ended with their lines, a message with more than 32 KB never did. The end of the response was not
noticed. With negotiate version 1, the POST requests used the connection
id instead of the token. POST requests were sent without the configured
headers, and the header returned by the configured function was modified.
---
 clientsseconnection.go | 51 ++++++++++++++++++++++--------------------
 httpconnection.go      | 23 +++++++++++++++----
 2 files changed, 46 insertions(+), 28 deletions(-)

diff --git a/clientsseconnection.go b/clientsseconnection.go
index 1ca613c..f0e8472 100644
--- a/clientsseconnection.go
+++ b/clientsseconnection.go
@@ -1,24 +1,25 @@
 package signalr
 
 import (
+	"bufio"
 	"bytes"
 	"context"
 	"fmt"
 	"io"
 	"net/http"
 	"net/url"
-	"strings"
 )
 
 type clientSSEConnection struct {
 	ConnectionBase
 	client    Doer
 	reqURL    string
-	sseReader io.Reader
-	sseWriter io.Writer
+	headers   func() http.Header
+	sseReader *io.PipeReader
+	sseWriter *io.PipeWriter
 }
 
-func newClientSSEConnection(address string, connectionID string, body io.ReadCloser, client Doer) (*clientSSEConnection, error) {
+func newClientSSEConnection(address string, connectionID string, body io.ReadCloser, client Doer, headers func() http.Header) (*clientSSEConnection, error) {
 	// Setup request
 	reqURL, err := url.Parse(address)
 	if err != nil {
@@ -32,34 +33,33 @@ func newClientSSEConnection(address string, connectionID string, body io.ReadClo
 			ctx:          context.Background(),
 			connectionID: connectionID,
 		},
-		client: client,
-		reqURL: reqURL.String(),
+		client:  client,
+		reqURL:  reqURL.String(),
+		headers: headers,
 	}
 	c.sseReader, c.sseWriter = io.Pipe()
 	go func() {
-		defer func() { closeResponseBody(body) }()
-		p := make([]byte, 1<<15)
-	loop:
+		// The body does not end until the connection is closed, so it can not be read to its end
+		defer func() { _ = body.Close() }()
+		reader := bufio.NewReaderSize(body, 1<<15)
+		isLineStart, isData := true, false
 		for {
-			n, err := body.Read(p)
+			// Lines (and multibyte characters) do not end where the reads of the body end, and they might be very long
+			line, isPrefix, err := reader.ReadLine()
 			if err != nil {
-				break loop
+				_ = c.sseWriter.CloseWithError(err)
+				return
 			}
-			lines := strings.Split(string(p[:n]), "\n")
-			for _, line := range lines {
-				line = strings.Trim(line, "\r\t ")
+			if isLineStart {
 				// Ignore everything but data
-				if strings.Index(line, "data:") != 0 {
-					continue
-				}
-				json := strings.Replace(strings.Trim(line, "\r"), "data:", "", 1)
+				isData = bytes.HasPrefix(line, []byte("data:"))
 				// Spec says: If it starts with Space, remove it
-				if len(json) > 0 && json[0] == ' ' {
-					json = json[1:]
-				}
-				_, err = c.sseWriter.Write([]byte(json))
-				if err != nil {
-					break loop
+				line = bytes.TrimPrefix(bytes.TrimPrefix(line, []byte("data:")), []byte(" "))
+			}
+			isLineStart = !isPrefix
+			if isData {
+				if _, err = c.sseWriter.Write(line); err != nil {
+					return
 				}
 			}
 		}
@@ -76,6 +76,9 @@ func (c *clientSSEConnection) Write(p []byte) (n int, err error) {
 	if err != nil {
 		return 0, err
 	}
+	if c.headers != nil {
+		req.Header = cloneHeader(c.headers())
+	}
 	resp, err := c.client.Do(req)
 	if err != nil {
 		return 0, err
diff --git a/httpconnection.go b/httpconnection.go
index 629d8c1..8fa12f3 100644
--- a/httpconnection.go
+++ b/httpconnection.go
@@ -107,7 +107,7 @@ func NewHTTPConnection(ctx context.Context, address string, options ...func(*htt
 	}
 
 	if httpConn.headers != nil {
-		req.Header = httpConn.headers()
+		req.Header = cloneHeader(httpConn.headers())
 	}
 
 	resp, err := httpConn.client.Do(req)
@@ -175,7 +175,7 @@ func NewHTTPConnection(ctx context.Context, address string, options ...func(*htt
 		}
 
 		if httpConn.headers != nil {
-			opts.HTTPHeader = httpConn.headers()
+			opts.HTTPHeader = cloneHeader(httpConn.headers())
 		} else {
 			opts.HTTPHeader = http.Header{}
 		}
@@ -199,7 +199,7 @@ func NewHTTPConnection(ctx context.Context, address string, options ...func(*htt
 		}
 
 		if httpConn.headers != nil {
-			req.Header = httpConn.headers()
+			req.Header = cloneHeader(httpConn.headers())
 		}
 		req.Header.Set("Accept", "text/event-stream")
 
@@ -208,10 +208,17 @@ func NewHTTPConnection(ctx context.Context, address string, options ...func(*htt
 			return nil, err
 		}
 
-		conn, err = newClientSSEConnection(address, negotiateResponse.ConnectionID, resp.Body, httpConn.client)
+		if resp.StatusCode != 200 {
+			closeResponseBody(resp.Body)
+			return nil, fmt.Errorf("%v %v -> %v", req.Method, req.URL.String(), resp.Status)
+		}
+
+		// The id of the POST requests is the same as the one of the GET request
+		conn, err = newClientSSEConnection(address, q.Get("id"), resp.Body, httpConn.client, httpConn.headers)
 		if err != nil {
 			return nil, err
 		}
+		conn.SetConnectionID(negotiateResponse.ConnectionID)
 
 	default:
 		return nil, fmt.Errorf("transport not configured or unknown negotiation transports: %v", negotiateResponse.AvailableTransports)
@@ -220,6 +227,14 @@ func NewHTTPConnection(ctx context.Context, address string, options ...func(*htt
 	return conn, nil
 }
 
+// cloneHeader makes a copy of the header, because the header of a request is modified
+func cloneHeader(header http.Header) http.Header {
+	if header == nil {
+		return http.Header{}
+	}
+	return header.Clone()
+}
+
 // closeResponseBody reads a http response body to the end and closes it
 // See https://blog.cubieserver.de/2022/http-connection-reuse-in-go-clients/
 // The body needs to be fully read and closed, otherwise the connection will not be reused
-- 
2.43.0


From 5f9b7a15aac9590cc90a5c30e912d624863c2699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:32 +0000
Subject: [PATCH 25/61] fix: do not limit the size of WebSocket messages to the
 size of a SignalR message

A message with exactly the maximum size and several smaller messages in one
WebSocket message were refused, and the end of WebSocket messages longer
than the read buffer was dropped.
---
 client.go              |  4 ----
 httpmux.go             |  1 -
 websocketconnection.go | 26 +++++++++++++++++++++-----
 3 files changed, 21 insertions(+), 10 deletions(-)

diff --git a/client.go b/client.go
index 3b5d8fc..fe4807b 100644
--- a/client.go
+++ b/client.go
@@ -291,10 +291,6 @@ func (c *client) setupConnectionAndProtocol() (Connection, hubProtocol, []byte,
 		c.conn = conn
 		c.mx.Unlock()
 	}
-	// Pass maximum receive message size to a potential websocket connection
-	if wsConn, ok := conn.(*webSocketConnection); ok {
-		wsConn.conn.SetReadLimit(int64(c.maximumReceiveMessageSize()))
-	}
 	protocol, received, err := c.processHandshake(conn)
 	if err != nil {
 		// The next attempt needs a new connection
diff --git a/httpmux.go b/httpmux.go
index 9d21116..883bac8 100644
--- a/httpmux.go
+++ b/httpmux.go
@@ -187,7 +187,6 @@ func (h *httpMux) handleWebsocket(writer http.ResponseWriter, request *http.Requ
 		// don't need to write an error header here as websocket.Accept has already used http.Error
 		return
 	}
-	websocketConn.SetReadLimit(int64(h.server.maximumReceiveMessageSize()))
 	connectionMapKey := request.URL.Query().Get("id")
 	if connectionMapKey == "" {
 		// Support websocket connection without negotiate
diff --git a/websocketconnection.go b/websocketconnection.go
index e6ec983..890291d 100644
--- a/websocketconnection.go
+++ b/websocketconnection.go
@@ -1,9 +1,9 @@
 package signalr
 
 import (
-	"bytes"
 	"context"
 	"fmt"
+	"io"
 	"net/http"
 	"net/url"
 	"github.com/coder/websocket"
@@ -21,10 +21,14 @@ func NewWebSocketConnection(ctx context.Context, reqURL *url.URL, connectionID s
 type webSocketConnection struct {
 	ConnectionBase
 	conn         *websocket.Conn
+	reader       io.Reader // the rest of the websocket message which is currently read
 	transferMode TransferMode
 }
 
 func newWebSocketConnection(ctx context.Context, connectionID string, conn *websocket.Conn) *webSocketConnection {
+	// Websocket messages may contain several signalR messages or only parts of them, and they are not buffered here.
+	// The size of the signalR messages is limited by the hubProtocol
+	conn.SetReadLimit(-1)
 	w := &webSocketConnection{
 		conn:           conn,
 		ConnectionBase: *NewConnectionBase(ctx, connectionID),
@@ -56,11 +60,23 @@ func (w *webSocketConnection) Write(p []byte) (n int, err error) {
 func (w *webSocketConnection) Read(p []byte) (n int, err error) {
 	n, err = ReadWriteWithContext(w.Context(),
 		func() (int, error) {
-			_, data, err := w.conn.Read(w.Context())
-			if err != nil {
-				return 0, err
+			for {
+				if w.reader == nil {
+					_, reader, err := w.conn.Reader(w.Context())
+					if err != nil {
+						return 0, err
+					}
+					w.reader = reader
+				}
+				n, err := w.reader.Read(p)
+				if err == io.EOF {
+					w.reader = nil
+					err = nil
+				}
+				if n > 0 || err != nil {
+					return n, err
+				}
 			}
-			return bytes.NewReader(data).Read(p)
 		},
 		func() {})
 	if err != nil {
-- 
2.43.0


From 125c3fb99765f0e3d32081cff81ffbc1781de65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:24 +0000
Subject: [PATCH 26/61] fix: let a negotiated id initiate only one connection

Concurrent requests with the same id could initiate several connections,
and a connection token (negotiate version 1) was never used up.
---
 httpmux.go | 132 +++++++++++++++++++++++++++++------------------------
 1 file changed, 72 insertions(+), 60 deletions(-)

diff --git a/httpmux.go b/httpmux.go
index 883bac8..d116ce1 100644
--- a/httpmux.go
+++ b/httpmux.go
@@ -127,51 +127,61 @@ func (h *httpMux) handleServerSentEvent(writer http.ResponseWriter, request *htt
 		writer.WriteHeader(http.StatusBadRequest)
 		return
 	}
-	h.mx.RLock()
-	c, ok := h.connectionMap[connectionIDorToken]
-	h.mx.RUnlock()
-	if ok {
-		if _, ok := c.(*negotiateConnection); ok {
-			ctx, _ := onecontext.Merge(h.server.Context(), request.Context())
-			sseConn, jobChan, jobResultChan, err := newServerSSEConnection(ctx, connectionIDorToken) // version 1 uses the token to initiate the connection, not the ID
-			if err != nil {
-				writer.WriteHeader(http.StatusInternalServerError)
-				return
-			}
-			flusher, ok := writer.(http.Flusher)
-			if !ok {
-				writer.WriteHeader(http.StatusInternalServerError)
-				return
-			}
-			// Connection is negotiated but not initiated
-			// We compose http and send it over sse
-			writer.Header().Set("Content-Type", "text/event-stream")
-			writer.Header().Set("Connection", "keep-alive")
-			writer.Header().Set("Cache-Control", "no-cache")
-			writer.WriteHeader(http.StatusOK)
-			// End this Server Sent Event (yes, your response now is one and the client will wait for this initial event to end)
-			_, _ = fmt.Fprint(writer, ":\r\n\r\n")
-			writer.(http.Flusher).Flush()
-			go func() {
-				// We can't WriteHeader 500 if we get an error as we already wrote the header, so ignore it.
-				_ = h.serveConnection(sseConn)
-			}()
-			// Loop for write jobs from the sseServerConnection
-			for buf := range jobChan {
-				n, err := writer.Write(buf)
-				if err == nil {
-					flusher.Flush()
-				}
-				jobResultChan <- RWJobResult{n: n, err: err}
-			}
-			close(jobResultChan)
-		} else {
-			// connectionID in use
-			writer.WriteHeader(http.StatusConflict)
+	flusher, ok := writer.(http.Flusher)
+	if !ok {
+		writer.WriteHeader(http.StatusInternalServerError)
+		return
+	}
+	ctx, _ := onecontext.Merge(h.server.Context(), request.Context())
+	sseConn, jobChan, jobResultChan, err := newServerSSEConnection(ctx, connectionIDorToken) // version 1 uses the token to initiate the connection, not the ID
+	if err != nil {
+		writer.WriteHeader(http.StatusInternalServerError)
+		return
+	}
+	if status := h.initiateConnection(connectionIDorToken, sseConn); status != http.StatusOK {
+		writer.WriteHeader(status)
+		return
+	}
+	// Connection is negotiated but not initiated
+	// We compose http and send it over sse
+	writer.Header().Set("Content-Type", "text/event-stream")
+	writer.Header().Set("Connection", "keep-alive")
+	writer.Header().Set("Cache-Control", "no-cache")
+	writer.WriteHeader(http.StatusOK)
+	// End this Server Sent Event (yes, your response now is one and the client will wait for this initial event to end)
+	_, _ = fmt.Fprint(writer, ":\r\n\r\n")
+	writer.(http.Flusher).Flush()
+	go func() {
+		// We can't WriteHeader 500 if we get an error as we already wrote the header, so ignore it.
+		_ = h.serveConnection(connectionIDorToken, sseConn)
+	}()
+	// Loop for write jobs from the sseServerConnection
+	for buf := range jobChan {
+		n, err := writer.Write(buf)
+		if err == nil {
+			flusher.Flush()
 		}
-	} else {
-		writer.WriteHeader(http.StatusNotFound)
+		jobResultChan <- RWJobResult{n: n, err: err}
 	}
+	close(jobResultChan)
+}
+
+// initiateConnection replaces the negotiated connection with the initiated one. This is possible only once.
+// It returns the http status when this is not possible and http.StatusOK otherwise.
+func (h *httpMux) initiateConnection(connectionMapKey string, conn Connection) int {
+	h.mx.Lock()
+	defer h.mx.Unlock()
+	c, ok := h.connectionMap[connectionMapKey]
+	if !ok {
+		// Not negotiated
+		return http.StatusNotFound
+	}
+	if _, ok := c.(*negotiateConnection); !ok {
+		// Already initiated
+		return http.StatusConflict
+	}
+	h.connectionMap[connectionMapKey] = conn
+	return http.StatusOK
 }
 
 func (h *httpMux) handleWebsocket(writer http.ResponseWriter, request *http.Request) {
@@ -187,6 +197,7 @@ func (h *httpMux) handleWebsocket(writer http.ResponseWriter, request *http.Requ
 		// don't need to write an error header here as websocket.Accept has already used http.Error
 		return
 	}
+	ctx, _ := onecontext.Merge(h.server.Context(), request.Context())
 	connectionMapKey := request.URL.Query().Get("id")
 	if connectionMapKey == "" {
 		// Support websocket connection without negotiate
@@ -201,21 +212,25 @@ func (h *httpMux) handleWebsocket(writer http.ResponseWriter, request *http.Requ
 	h.mx.RLock()
 	c, ok := h.connectionMap[connectionMapKey]
 	h.mx.RUnlock()
-	if ok {
-		if _, ok := c.(*negotiateConnection); ok {
-			// Connection is negotiated but not initiated
-			ctx, _ := onecontext.Merge(h.server.Context(), request.Context())
-			err = h.serveConnection(newWebSocketConnection(ctx, c.ConnectionID(), websocketConn))
-			if err != nil {
-				_ = websocketConn.Close(1005, err.Error())
-			}
-		} else {
-			// Already initiated
-			_ = websocketConn.Close(1002, "Bad request")
+	if !ok {
+		// Not negotiated
+		_ = websocketConn.Close(1002, "Not found")
+		return
+	}
+	conn := newWebSocketConnection(ctx, c.ConnectionID(), websocketConn)
+	switch h.initiateConnection(connectionMapKey, conn) {
+	case http.StatusOK:
+		// Connection is negotiated but not initiated
+		err = h.serveConnection(connectionMapKey, conn)
+		if err != nil {
+			_ = websocketConn.Close(1005, err.Error())
 		}
-	} else {
+	case http.StatusNotFound:
 		// Not negotiated
 		_ = websocketConn.Close(1002, "Not found")
+	default:
+		// Already initiated
+		_ = websocketConn.Close(1002, "Bad request")
 	}
 }
 
@@ -298,13 +313,10 @@ func (h *httpMux) negotiate(w http.ResponseWriter, req *http.Request) {
 	}
 }
 
-func (h *httpMux) serveConnection(c Connection) error {
-	h.mx.Lock()
-	h.connectionMap[c.ConnectionID()] = c
-	h.mx.Unlock()
+func (h *httpMux) serveConnection(connectionMapKey string, c Connection) error {
 	err := h.server.Serve(c)
 	h.mx.Lock()
-	delete(h.connectionMap, c.ConnectionID())
+	delete(h.connectionMap, connectionMapKey)
 	h.mx.Unlock()
 	return err
 }
-- 
2.43.0


From a917e9fdff70c4fb5e5667d7b8f145d3262cbe9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:01 +0000
Subject: [PATCH 27/61] fix: do not let a failed or oversized POST block a SSE
 connection

After a failed POST request, all following ones were refused. A message with
exactly the maximum size and several smaller messages in one request were
refused. After the end of the connection, Write could block forever, the
response was not ended and requests waiting for the hub never returned.
---
 httpmux.go             |  6 +++--
 serversseconnection.go | 52 ++++++++++++++++++++++++++++++------------
 2 files changed, 42 insertions(+), 16 deletions(-)

diff --git a/httpmux.go b/httpmux.go
index d116ce1..ce3f9c3 100644
--- a/httpmux.go
+++ b/httpmux.go
@@ -79,7 +79,6 @@ func (h *httpMux) handlePost(writer http.ResponseWriter, request *http.Request)
 			// Connection is initiated
 			switch conn := c.(type) {
 			case *serverSSEConnection:
-				request.Body = http.MaxBytesReader(writer, request.Body, int64(h.server.maximumReceiveMessageSize()))
 				writer.WriteHeader(conn.consumeRequest(request))
 				return
 			case *negotiateConnection:
@@ -132,7 +131,8 @@ func (h *httpMux) handleServerSentEvent(writer http.ResponseWriter, request *htt
 		writer.WriteHeader(http.StatusInternalServerError)
 		return
 	}
-	ctx, _ := onecontext.Merge(h.server.Context(), request.Context())
+	ctx, cancel := onecontext.Merge(h.server.Context(), request.Context())
+	defer cancel()
 	sseConn, jobChan, jobResultChan, err := newServerSSEConnection(ctx, connectionIDorToken) // version 1 uses the token to initiate the connection, not the ID
 	if err != nil {
 		writer.WriteHeader(http.StatusInternalServerError)
@@ -154,6 +154,8 @@ func (h *httpMux) handleServerSentEvent(writer http.ResponseWriter, request *htt
 	go func() {
 		// We can't WriteHeader 500 if we get an error as we already wrote the header, so ignore it.
 		_ = h.serveConnection(connectionIDorToken, sseConn)
+		// End the response
+		cancel()
 	}()
 	// Loop for write jobs from the sseServerConnection
 	for buf := range jobChan {
diff --git a/serversseconnection.go b/serversseconnection.go
index 665d696..212c0a0 100644
--- a/serversseconnection.go
+++ b/serversseconnection.go
@@ -14,8 +14,8 @@ type serverSSEConnection struct {
 	ConnectionBase
 	mx            sync.Mutex
 	postWriting   bool
-	postWriter    io.Writer
-	postReader    io.Reader
+	postWriter    *io.PipeWriter
+	postReader    *io.PipeReader
 	jobChan       chan []byte
 	jobResultChan chan RWJobResult
 }
@@ -29,6 +29,8 @@ func newServerSSEConnection(ctx context.Context, connectionID string) (*serverSS
 	s.postReader, s.postWriter = io.Pipe()
 	go func() {
 		<-s.Context().Done()
+		// Unblock Read and consumeRequest
+		_ = s.postWriter.CloseWithError(s.Context().Err())
 		s.mx.Lock()
 		close(s.jobChan)
 		s.mx.Unlock()
@@ -47,26 +49,47 @@ func (s *serverSSEConnection) consumeRequest(request *http.Request) int {
 	}
 	s.postWriting = true
 	s.mx.Unlock()
-	defer func() {
-		_ = request.Body.Close()
-	}()
-	body, err := io.ReadAll(request.Body)
-	if err != nil {
-		return http.StatusBadRequest // 400
-	} else if _, err := s.postWriter.Write(body); err != nil {
-		return http.StatusInternalServerError // 500
-	}
+	status := s.consumeBody(request.Body)
+	_ = request.Body.Close()
 	s.mx.Lock()
 	s.postWriting = false
 	s.mx.Unlock()
-	<-time.After(50 * time.Millisecond)
-	return http.StatusOK // 200
+	if status == http.StatusOK {
+		<-time.After(50 * time.Millisecond)
+	}
+	return status
+}
+
+func (s *serverSSEConnection) consumeBody(body io.Reader) int {
+	// The body may contain several messages, so its size is not limited. It is not buffered here,
+	// the size of the messages is limited by the hubProtocol.
+	p := make([]byte, 1<<12)
+	written := false
+	for {
+		n, err := body.Read(p)
+		if n > 0 {
+			if _, err := s.postWriter.Write(p[:n]); err != nil {
+				return http.StatusInternalServerError // 500
+			}
+			written = true
+		}
+		if err == io.EOF {
+			return http.StatusOK // 200
+		}
+		if err != nil {
+			if written {
+				// The rest of the message got lost
+				_ = s.postWriter.CloseWithError(err)
+			}
+			return http.StatusBadRequest // 400
+		}
+	}
 }
 
 func (s *serverSSEConnection) Read(p []byte) (n int, err error) {
 	n, err = ReadWriteWithContext(s.Context(),
 		func() (int, error) { return s.postReader.Read(p) },
-		func() { _, _ = s.postWriter.Write([]byte("\n")) })
+		func() {})
 	if err != nil {
 		err = fmt.Errorf("%T: %w", s, err)
 	}
@@ -86,6 +109,7 @@ func (s *serverSSEConnection) Write(p []byte) (n int, err error) {
 	if s.Context().Err() == nil {
 		s.jobChan <- []byte(payload + "\n")
 	} else {
+		s.mx.Unlock()
 		return 0, fmt.Errorf("%T: %w", s, s.Context().Err())
 	}
 	s.mx.Unlock()
-- 
2.43.0


From cb674b5c77e2d664ea18558a231d824305fcdf18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:50 +0000
Subject: [PATCH 28/61] fix: inform the peer of a HTTP connection when the
 server stops and release ended connections

When the server was stopped, connections were canceled before the close
message was written. The client never closed its transport connection.
---
 client.go              | 10 ++++++++++
 clientsseconnection.go |  7 +++++++
 httpmux.go             | 10 +++++++---
 websocketconnection.go |  4 ++++
 4 files changed, 28 insertions(+), 3 deletions(-)

diff --git a/client.go b/client.go
index fe4807b..5a2dbcd 100644
--- a/client.go
+++ b/client.go
@@ -249,6 +249,7 @@ func (c *client) run() (*loop, error) {
 	c.mx.Lock()
 	c.conn = nil
 	c.mx.Unlock()
+	closeConnection(conn)
 
 	return loop, err
 }
@@ -297,11 +298,20 @@ func (c *client) setupConnectionAndProtocol() (Connection, hubProtocol, []byte,
 		c.mx.Lock()
 		c.conn = nil
 		c.mx.Unlock()
+		closeConnection(conn)
 		return nil, nil, nil, err
 	}
 	return conn, protocol, received, nil
 }
 
+// closeConnection releases the resources of a connection which is not used anymore
+func closeConnection(conn Connection) {
+	if closer, ok := conn.(interface{ close() }); ok {
+		// The peer might be stalled, do not wait for it
+		go closer.close()
+	}
+}
+
 func (c *client) State() ClientState {
 	c.mx.RLock()
 	defer c.mx.RUnlock()
diff --git a/clientsseconnection.go b/clientsseconnection.go
index f0e8472..5233c55 100644
--- a/clientsseconnection.go
+++ b/clientsseconnection.go
@@ -15,6 +15,7 @@ type clientSSEConnection struct {
 	client    Doer
 	reqURL    string
 	headers   func() http.Header
+	body      io.ReadCloser
 	sseReader *io.PipeReader
 	sseWriter *io.PipeWriter
 }
@@ -36,6 +37,7 @@ func newClientSSEConnection(address string, connectionID string, body io.ReadClo
 		client:  client,
 		reqURL:  reqURL.String(),
 		headers: headers,
+		body:    body,
 	}
 	c.sseReader, c.sseWriter = io.Pipe()
 	go func() {
@@ -67,6 +69,11 @@ func newClientSSEConnection(address string, connectionID string, body io.ReadClo
 	return &c, nil
 }
 
+func (c *clientSSEConnection) close() {
+	_ = c.sseReader.Close()
+	_ = c.body.Close()
+}
+
 func (c *clientSSEConnection) Read(p []byte) (n int, err error) {
 	return c.sseReader.Read(p)
 }
diff --git a/httpmux.go b/httpmux.go
index ce3f9c3..d346aa3 100644
--- a/httpmux.go
+++ b/httpmux.go
@@ -13,7 +13,6 @@ import (
 	"time"
 
 	"github.com/coder/websocket"
-	"github.com/teivah/onecontext"
 )
 
 type httpMux struct {
@@ -131,7 +130,8 @@ func (h *httpMux) handleServerSentEvent(writer http.ResponseWriter, request *htt
 		writer.WriteHeader(http.StatusInternalServerError)
 		return
 	}
-	ctx, cancel := onecontext.Merge(h.server.Context(), request.Context())
+	// When the server is stopped, the connection is not canceled until its peer has been informed
+	ctx, cancel := context.WithCancel(request.Context())
 	defer cancel()
 	sseConn, jobChan, jobResultChan, err := newServerSSEConnection(ctx, connectionIDorToken) // version 1 uses the token to initiate the connection, not the ID
 	if err != nil {
@@ -199,7 +199,9 @@ func (h *httpMux) handleWebsocket(writer http.ResponseWriter, request *http.Requ
 		// don't need to write an error header here as websocket.Accept has already used http.Error
 		return
 	}
-	ctx, _ := onecontext.Merge(h.server.Context(), request.Context())
+	// When the server is stopped, the connection is not canceled until its peer has been informed
+	ctx, cancel := context.WithCancel(request.Context())
+	defer cancel()
 	connectionMapKey := request.URL.Query().Get("id")
 	if connectionMapKey == "" {
 		// Support websocket connection without negotiate
@@ -226,6 +228,8 @@ func (h *httpMux) handleWebsocket(writer http.ResponseWriter, request *http.Requ
 		err = h.serveConnection(connectionMapKey, conn)
 		if err != nil {
 			_ = websocketConn.Close(1005, err.Error())
+		} else {
+			_ = websocketConn.Close(websocket.StatusNormalClosure, "")
 		}
 	case http.StatusNotFound:
 		// Not negotiated
diff --git a/websocketconnection.go b/websocketconnection.go
index 890291d..1be2bfc 100644
--- a/websocketconnection.go
+++ b/websocketconnection.go
@@ -86,6 +86,10 @@ func (w *webSocketConnection) Read(p []byte) (n int, err error) {
 	return n, err
 }
 
+func (w *webSocketConnection) close() {
+	_ = w.conn.Close(websocket.StatusNormalClosure, "")
+}
+
 func (w *webSocketConnection) TransferMode() TransferMode {
 	return w.transferMode
 }
-- 
2.43.0


From 02763919c38e1d29619364d6f02f3cdc5fb9bb62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:09 +0000
Subject: [PATCH 29/61] fix: escape the protocol name in the handshake error
 response

---
 server.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/server.go b/server.go
index 5e69963..a28a3a5 100644
--- a/server.go
+++ b/server.go
@@ -301,8 +301,9 @@ func (s *server) sendHandshakeResponse(conn Connection, request handshakeRequest
 		_ = info.Log(evt, "protocol requested", "error", err)
 		if _, respErr := ReadWriteWithContext(ctx,
 			func() (int, error) {
-				const errorHandshakeResponse = "{\"error\":\"%s\"}\u001e"
-				return fmt.Fprintf(conn, errorHandshakeResponse, err)
+				// The error contains text of the peer, which has to be escaped
+				errorHandshakeResponse, _ := json.Marshal(handshakeResponse{Error: err.Error()})
+				return conn.Write(append(errorHandshakeResponse, 0x1e))
 			}, func() {}); respErr != nil {
 			_ = dbg.Log(evt, "handshake sent", "error", respErr)
 			err = respErr
-- 
2.43.0


From 6e99c5da55126afd5e5e7293a7ebf319b750e066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:30 +0000
Subject: [PATCH 30/61] fix: send keep-alive pings also while the handling of
 messages takes long

---
 loop.go | 116 ++++++++++++++++++++++++++++----------------------------
 1 file changed, 57 insertions(+), 59 deletions(-)

diff --git a/loop.go b/loop.go
index 40ecf3b..5594545 100644
--- a/loop.go
+++ b/loop.go
@@ -79,70 +79,46 @@ func (l *loop) Run(connected chan struct{}) (err error) {
 		}
 	}()
 	timeoutTicker := time.NewTicker(l.party.timeout())
-	keepAliveTicker := time.NewTicker(l.party.keepAliveInterval())
-	pinging := atomic.Bool{}
+	// Handling a message might take as long as chanReceiveTimeout, and Ping blocks when the peer does not read.
+	// Neither should prevent the other
+	go l.keepAlive()
 msgLoop:
 	for {
-	pingLoop:
-		for {
-			select {
-			case evt := <-ch:
-				err = evt.err
-				timeoutTicker.Reset(l.party.timeout())
-				if err == nil {
-					switch message := evt.message.(type) {
-					case invocationMessage:
-						l.handleInvocationMessage(message)
-					case cancelInvocationMessage:
-						_ = l.dbg.Log(evt, msgRecv, msg, fmtMsg(message))
-						l.streamer.Stop(message.InvocationID)
-					case streamItemMessage:
-						err = l.handleStreamItemMessage(message)
-					case completionMessage:
-						err = l.handleCompletionMessage(message)
-					case closeMessage:
-						_ = l.dbg.Log(evt, msgRecv, msg, fmtMsg(message))
-						l.closeMessage = &message
-						if message.Error != "" {
-							err = errors.New(message.Error)
-						}
-					case hubMessage:
-						// Mostly ping
-						err = l.handleOtherMessage(message)
-						// No default case necessary, because the protocol would return either a hubMessage or an error
-					}
-				} else {
-					_ = l.info.Log(evt, msgRecv, "error", err, msg, fmtMsg(evt.message), react, "close connection")
-				}
-				break pingLoop
-			case <-keepAliveTicker.C:
-				// Send ping only when there was no write in the keepAliveInterval before
-				nextPingIn := l.party.keepAliveInterval() - time.Since(l.hubConn.LastWriteStamp())
-
-				if nextPingIn <= 0 {
-					// When the peer does not read, Ping blocks. This should not prevent the timeout.
-					// When Ping fails, the hubConnection is canceled
-					if pinging.CompareAndSwap(false, true) {
-						go func() {
-							defer pinging.Store(false)
-							_ = l.hubConn.Ping()
-						}()
+		select {
+		case evt := <-ch:
+			err = evt.err
+			timeoutTicker.Reset(l.party.timeout())
+			if err == nil {
+				switch message := evt.message.(type) {
+				case invocationMessage:
+					l.handleInvocationMessage(message)
+				case cancelInvocationMessage:
+					_ = l.dbg.Log(evt, msgRecv, msg, fmtMsg(message))
+					l.streamer.Stop(message.InvocationID)
+				case streamItemMessage:
+					err = l.handleStreamItemMessage(message)
+				case completionMessage:
+					err = l.handleCompletionMessage(message)
+				case closeMessage:
+					_ = l.dbg.Log(evt, msgRecv, msg, fmtMsg(message))
+					l.closeMessage = &message
+					if message.Error != "" {
+						err = errors.New(message.Error)
 					}
-					keepAliveTicker.Reset(l.party.keepAliveInterval())
-				} else {
-					keepAliveTicker.Reset(nextPingIn)
+				case hubMessage:
+					// Mostly ping
+					err = l.handleOtherMessage(message)
+					// No default case necessary, because the protocol would return either a hubMessage or an error
 				}
-				// Don't break the pingLoop when keepAlive is over, it exists for this case
-			case <-timeoutTicker.C:
-				err = fmt.Errorf("timeout interval elapsed (%v)", l.party.timeout())
-				break pingLoop
-			case <-l.hubConn.Context().Done():
-				err = fmt.Errorf("breaking loop. hubConnection canceled: %w", l.hubConn.Context().Err())
-				break pingLoop
-			case <-l.party.Context().Done():
-				err = fmt.Errorf("breaking loop. Party canceled: %w", l.party.Context().Err())
-				break pingLoop
+			} else {
+				_ = l.info.Log(evt, msgRecv, "error", err, msg, fmtMsg(evt.message), react, "close connection")
 			}
+		case <-timeoutTicker.C:
+			err = fmt.Errorf("timeout interval elapsed (%v)", l.party.timeout())
+		case <-l.hubConn.Context().Done():
+			err = fmt.Errorf("breaking loop. hubConnection canceled: %w", l.hubConn.Context().Err())
+		case <-l.party.Context().Done():
+			err = fmt.Errorf("breaking loop. Party canceled: %w", l.party.Context().Err())
 		}
 		if err != nil || l.closeMessage != nil {
 			break msgLoop
@@ -160,6 +136,28 @@ msgLoop:
 	return err
 }
 
+// keepAlive sends pings until the connection ends
+func (l *loop) keepAlive() {
+	keepAliveTicker := time.NewTicker(l.party.keepAliveInterval())
+	defer keepAliveTicker.Stop()
+	for {
+		select {
+		case <-keepAliveTicker.C:
+			// Send ping only when there was no write in the keepAliveInterval before
+			nextPingIn := l.party.keepAliveInterval() - time.Since(l.hubConn.LastWriteStamp())
+			if nextPingIn <= 0 {
+				// When Ping fails, the hubConnection is canceled
+				_ = l.hubConn.Ping()
+				keepAliveTicker.Reset(l.party.keepAliveInterval())
+			} else {
+				keepAliveTicker.Reset(nextPingIn)
+			}
+		case <-l.hubConn.Context().Done():
+			return
+		}
+	}
+}
+
 func (l *loop) PullStream(method, id string, arguments ...interface{}) <-chan InvokeResult {
 	_, errChan := l.invokeClient.newInvocation(id)
 	upChan := l.streamClient.newUpstreamChannel(id)
-- 
2.43.0


From 9a1f6451bd79a3ddfc3eb76108d846700c0bc4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:21 +0000
Subject: [PATCH 31/61] fix: do not allocate memory for messagepack headers and
 invocation ids which are not there

A message of a few bytes could pretend to have a header map or an invocation id with 2^32 elements, the decoder then
allocated memory for all of them and the process ended.
---
 messagepackhubprotocol.go | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/messagepackhubprotocol.go b/messagepackhubprotocol.go
index 72286cf..2d64097 100644
--- a/messagepackhubprotocol.go
+++ b/messagepackhubprotocol.go
@@ -103,10 +103,16 @@ func (m *messagePackHubProtocol) parseMessage(buf *bytes.Buffer) (message interf
 		hasHeader = msgpcode.IsFixedMap(code) || code == msgpcode.Map16 || code == msgpcode.Map32
 	}
 	if hasHeader {
-		_, err = decoder.DecodeMap()
+		// Do not decode the header, allocating a map as large as the message pretends it to be might use up all memory
+		headerLen, err := decoder.DecodeMapLen()
 		if err != nil {
 			return nil, err
 		}
+		for i := 0; i < 2*headerLen; i++ {
+			if err := decoder.Skip(); err != nil {
+				return nil, err
+			}
+		}
 	}
 	switch msgType {
 	case 1, 4:
@@ -245,20 +251,16 @@ func recoverDecoderPanic(err *error) {
 }
 
 func (m *messagePackHubProtocol) decodeInvocationID(decoder *msgpack.Decoder) (string, error) {
-	rawID, err := decoder.DecodeInterface()
+	code, err := decoder.PeekCode()
 	if err != nil {
 		return "", err
 	}
-	// nil is ok
-	if rawID == nil {
-		return "", nil
-	}
-	// Otherwise, it must be string
-	invocationID, ok := rawID.(string)
-	if !ok {
-		return "", fmt.Errorf("invalid InvocationID %#v", rawID)
+	// It must be string or nil. Do not decode anything else, e.g. an array which pretends to be larger than the message
+	if code != msgpcode.Nil && !msgpcode.IsString(code) {
+		return "", fmt.Errorf("invalid InvocationID type %x", code)
 	}
-	return invocationID, nil
+	// DecodeString returns "" for nil
+	return decoder.DecodeString()
 }
 
 func (m *messagePackHubProtocol) WriteMessage(message interface{}, writer io.Writer) error {
-- 
2.43.0


From f9c3cac575800c4c9a6c613bac6b61d57c6b4cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:18 +0000
Subject: [PATCH 32/61] fix: do not time out while received messages wait to be
 handled

When handling a message took longer than the timeout interval, the connection could end with a timeout although
further messages had been received in the meantime.
---
 loop.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/loop.go b/loop.go
index 5594545..a43bbf6 100644
--- a/loop.go
+++ b/loop.go
@@ -114,6 +114,10 @@ msgLoop:
 				_ = l.info.Log(evt, msgRecv, "error", err, msg, fmtMsg(evt.message), react, "close connection")
 			}
 		case <-timeoutTicker.C:
+			if len(ch) > 0 {
+				// Handling the message before took long. In the meantime, another one was received
+				continue
+			}
 			err = fmt.Errorf("timeout interval elapsed (%v)", l.party.timeout())
 		case <-l.hubConn.Context().Done():
 			err = fmt.Errorf("breaking loop. hubConnection canceled: %w", l.hubConn.Context().Err())
-- 
2.43.0


From ed6b15846578fbd942d04b526ec02993f19ec0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:47 +0000
Subject: [PATCH 33/61] fix: let hubs see the connection id, not the token, of
 SSE connections

---
 httpmux.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/httpmux.go b/httpmux.go
index d346aa3..ea98b0c 100644
--- a/httpmux.go
+++ b/httpmux.go
@@ -182,6 +182,8 @@ func (h *httpMux) initiateConnection(connectionMapKey string, conn Connection) i
 		// Already initiated
 		return http.StatusConflict
 	}
+	// The key might be the connection token, which is known to the client only
+	conn.SetConnectionID(c.ConnectionID())
 	h.connectionMap[connectionMapKey] = conn
 	return http.StatusOK
 }
-- 
2.43.0


From 33a1d862dec6823a62b0374473e1382f985a1ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:39 +0000
Subject: [PATCH 34/61] fix: write nothing after a message which could be
 written only in part

---
 hubconnection.go | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/hubconnection.go b/hubconnection.go
index f8a1005..058643a 100644
--- a/hubconnection.go
+++ b/hubconnection.go
@@ -3,6 +3,7 @@ package signalr
 import (
 	"bytes"
 	"context"
+	"errors"
 	"fmt"
 	"io"
 	"sync"
@@ -60,6 +61,7 @@ type defaultHubConnection struct {
 	maximumReceiveMessageSize uint
 	received                  []byte        // read from the connection together with the handshake
 	writing                   chan struct{} // occupied while a message is written, so messages are written one after the other
+	incomplete                bool          // only a part of a message has been written, so no other message can follow
 	items                     *sync.Map
 	lastWriteStamp            time.Time
 	info                      StructuredLogger
@@ -95,12 +97,18 @@ func (c *defaultHubConnection) write(ctx context.Context, message interface{}) e
 		<-c.writing
 		return ctx.Err()
 	}
+	if c.incomplete {
+		<-c.writing
+		return errors.New("the message before could not be written completely")
+	}
 	c.mx.Lock()
 	c.lastWriteStamp = time.Now()
 	c.mx.Unlock()
 	e := make(chan error, 1)
 	go func() {
-		err := c.protocol.WriteMessage(message, c.connection)
+		writer := &messageWriter{writer: c.connection}
+		err := c.protocol.WriteMessage(message, writer)
+		c.incomplete = writer.incomplete
 		<-c.writing
 		e <- err
 	}()
@@ -112,6 +120,25 @@ func (c *defaultHubConnection) write(ctx context.Context, message interface{}) e
 	}
 }
 
+// messageWriter finds out if a message has been written incompletely
+type messageWriter struct {
+	writer     io.Writer
+	written    int
+	incomplete bool
+}
+
+func (w *messageWriter) Write(p []byte) (n int, err error) {
+	n, err = w.writer.Write(p)
+	w.written += n
+	if n < len(p) {
+		if err == nil {
+			err = io.ErrShortWrite
+		}
+		w.incomplete = w.written > 0
+	}
+	return n, err
+}
+
 func (c *defaultHubConnection) ConnectionID() string {
 	return c.connection.ConnectionID()
 }
-- 
2.43.0


From f7afabb7529423eeeb5046822ee00dc5b7ab9854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:34 +0000
Subject: [PATCH 35/61] fix: write no further close message after a connection
 has ended

---
 hubconnection.go | 8 ++++++++
 hubcontext.go    | 4 ++++
 2 files changed, 12 insertions(+)

diff --git a/hubconnection.go b/hubconnection.go
index 058643a..a6ac60c 100644
--- a/hubconnection.go
+++ b/hubconnection.go
@@ -62,6 +62,7 @@ type defaultHubConnection struct {
 	received                  []byte        // read from the connection together with the handshake
 	writing                   chan struct{} // occupied while a message is written, so messages are written one after the other
 	incomplete                bool          // only a part of a message has been written, so no other message can follow
+	closed                    bool          // the connection has ended and the close message has been written
 	items                     *sync.Map
 	lastWriteStamp            time.Time
 	info                      StructuredLogger
@@ -101,6 +102,13 @@ func (c *defaultHubConnection) write(ctx context.Context, message interface{}) e
 		<-c.writing
 		return errors.New("the message before could not be written completely")
 	}
+	if c.closed {
+		<-c.writing
+		return errors.New("the connection is closed")
+	}
+	if _, ok := message.(closeMessage); ok && c.ctx.Err() != nil {
+		c.closed = true
+	}
 	c.mx.Lock()
 	c.lastWriteStamp = time.Now()
 	c.mx.Unlock()
diff --git a/hubcontext.go b/hubcontext.go
index 9ddbe62..1d8ab62 100644
--- a/hubcontext.go
+++ b/hubcontext.go
@@ -61,5 +61,9 @@ func (c *connectionHubContext) Logger() (info StructuredLogger, dbg StructuredLo
 }
 
 func (c *connectionHubContext) Close(errorMessage string, allowReconnect bool) error {
+	if err := c.connection.Context().Err(); err != nil {
+		// The connection has already ended
+		return err
+	}
 	return c.connection.Close(errorMessage, allowReconnect)
 }
-- 
2.43.0


From 87f1c49dae0d8deb52aabd532a0ca30af7603962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:50 +0000
Subject: [PATCH 36/61] fix: receive the results nobody waits for, so no
 goroutine is left over

When a call ended with an error, further results of it could block the goroutine
which forwards them forever.
---
 Invokeresult.go | 7 +++++++
 client.go       | 4 ++++
 loop.go         | 2 ++
 3 files changed, 13 insertions(+)

diff --git a/Invokeresult.go b/Invokeresult.go
index bb2b2c2..1e55a91 100644
--- a/Invokeresult.go
+++ b/Invokeresult.go
@@ -10,6 +10,13 @@ type InvokeResult struct {
 	Error error
 }
 
+// drainInvokeResults receives the results nobody waits for anymore, so that the goroutine which sends them can end.
+func drainInvokeResults(ch <-chan InvokeResult) {
+	for range ch {
+		continue
+	}
+}
+
 // newInvokeResultChan combines a value result and an error result channel into one InvokeResult channel
 // The InvokeResult channel is automatically closed when both input channels are closed.
 // When ctx is canceled before, the InvokeResult channel delivers what has already been received and the error of ctx.
diff --git a/client.go b/client.go
index 5a2dbcd..306f7e7 100644
--- a/client.go
+++ b/client.go
@@ -483,6 +483,7 @@ func (c *client) Invoke(method string, arguments ...interface{}) <-chan InvokeRe
 			loop.invokeClient.deleteInvocation(id)
 			ch <- InvokeResult{Error: err}
 			close(ch)
+			drainInvokeResults(irCh)
 			return
 		}
 		go func() {
@@ -491,6 +492,7 @@ func (c *client) Invoke(method string, arguments ...interface{}) <-chan InvokeRe
 				ch <- ir
 			}
 			close(ch)
+			drainInvokeResults(irCh)
 		}()
 	}()
 	return ch
@@ -541,6 +543,7 @@ func (c *client) PullStream(method string, arguments ...interface{}) <-chan Invo
 				}
 			}
 			close(irCh)
+			drainInvokeResults(pullCh)
 		}()
 	}()
 	return irCh
@@ -567,6 +570,7 @@ func (c *client) PushStreams(method string, arguments ...interface{}) <-chan Inv
 				irCh <- ir
 			}
 			close(irCh)
+			drainInvokeResults(pushCh)
 		}()
 	}()
 	return irCh
diff --git a/loop.go b/loop.go
index a43bbf6..2c2a609 100644
--- a/loop.go
+++ b/loop.go
@@ -169,6 +169,7 @@ func (l *loop) PullStream(method, id string, arguments ...interface{}) <-chan In
 	if err := l.hubConn.SendStreamInvocation(id, method, arguments); err != nil {
 		// When we get an error here, the loop is closed and the errChan might be already closed
 		// We create a new one to deliver our error
+		go drainInvokeResults(ch)
 		ch, _ = createResultChansWithError(l.party.Context(), err)
 		l.streamClient.deleteUpstreamChannel(id)
 		l.invokeClient.deleteInvocation(id)
@@ -197,6 +198,7 @@ func (l *loop) PushStreams(method, id string, arguments ...interface{}) (<-chan
 	// Tell the server we are streaming now
 	if err := l.hubConn.SendInvocationWithStreamIds(id, method, invokeArgs, streamIds); err != nil {
 		l.invokeClient.deleteInvocation(id)
+		go drainInvokeResults(irCh)
 		return nil, err
 	}
 	// Start streaming on all channels
-- 
2.43.0


From cb0090c01a1192510524e13b1b842ba0c35cd71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:35 +0000
Subject: [PATCH 37/61] fix: end a pending POST when a client's SSE connection
 is closed

When the server did not answer, the goroutine which writes was left over after Stop.
---
 clientsseconnection.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/clientsseconnection.go b/clientsseconnection.go
index 5233c55..27538ea 100644
--- a/clientsseconnection.go
+++ b/clientsseconnection.go
@@ -12,6 +12,7 @@ import (
 
 type clientSSEConnection struct {
 	ConnectionBase
+	cancel    context.CancelFunc
 	client    Doer
 	reqURL    string
 	headers   func() http.Header
@@ -29,11 +30,13 @@ func newClientSSEConnection(address string, connectionID string, body io.ReadClo
 	q := reqURL.Query()
 	q.Set("id", connectionID)
 	reqURL.RawQuery = q.Encode()
+	ctx, cancel := context.WithCancel(context.Background())
 	c := clientSSEConnection{
 		ConnectionBase: ConnectionBase{
-			ctx:          context.Background(),
+			ctx:          ctx,
 			connectionID: connectionID,
 		},
+		cancel:  cancel,
 		client:  client,
 		reqURL:  reqURL.String(),
 		headers: headers,
@@ -70,6 +73,8 @@ func newClientSSEConnection(address string, connectionID string, body io.ReadClo
 }
 
 func (c *clientSSEConnection) close() {
+	// End a POST which the server does not answer
+	c.cancel()
 	_ = c.sseReader.Close()
 	_ = c.body.Close()
 }
@@ -79,7 +84,7 @@ func (c *clientSSEConnection) Read(p []byte) (n int, err error) {
 }
 
 func (c *clientSSEConnection) Write(p []byte) (n int, err error) {
-	req, err := http.NewRequest("POST", c.reqURL, bytes.NewReader(p))
+	req, err := http.NewRequestWithContext(c.Context(), "POST", c.reqURL, bytes.NewReader(p))
 	if err != nil {
 		return 0, err
 	}
-- 
2.43.0


From 0a71a52275829ecfd564c2337fba2f1c38523445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:57 +0000
Subject: [PATCH 38/61] fix: do not send to channels of an invocation which are
 closed because sending it failed

---
 invokeclient.go | 30 ++++++++++++------------------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/invokeclient.go b/invokeclient.go
index fee1a29..a425c00 100644
--- a/invokeclient.go
+++ b/invokeclient.go
@@ -88,36 +88,30 @@ func (i *invokeClient) handlesInvocationID(invocationID string) bool {
 
 func (i *invokeClient) receiveCompletionItem(completion completionMessage) error {
 	defer i.deleteInvocation(completion.InvocationID)
+	var result interface{}
+	if completion.Error == "" && completion.Result != nil && i.handlesInvocationID(completion.InvocationID) {
+		if err := i.protocol.UnmarshalArgument(completion.Result, &result); err != nil {
+			i.failInvocation(completion.InvocationID, err)
+			return err
+		}
+	}
+	// The channels are closed when the invocation is deleted, which can happen at any time, e.g. because sending it
+	// has failed. So do not release the lock before the completion is delivered.
 	i.mx.Lock()
+	defer i.mx.Unlock()
 	ir, ok := i.resultChans[completion.InvocationID]
-	i.mx.Unlock()
 	if ok {
 		if completion.Error != "" {
-			done := make(chan struct{})
-			go func() {
-				ir.errChan <- errors.New(completion.Error)
-				close(done)
-			}()
 			select {
-			case <-done:
+			case ir.errChan <- errors.New(completion.Error):
 				return nil
 			case <-time.After(i.chanReceiveTimeout):
 				return &hubChanTimeoutError{fmt.Sprintf("timeout (%v) waiting for hub to receive client sent error", i.chanReceiveTimeout)}
 			}
 		}
 		if completion.Result != nil {
-			var result interface{}
-			if err := i.protocol.UnmarshalArgument(completion.Result, &result); err != nil {
-				i.failInvocation(completion.InvocationID, err)
-				return err
-			}
-			done := make(chan struct{})
-			go func() {
-				ir.resultChan <- result
-				close(done)
-			}()
 			select {
-			case <-done:
+			case ir.resultChan <- result:
 				return nil
 			case <-time.After(i.chanReceiveTimeout):
 				return &hubChanTimeoutError{fmt.Sprintf("timeout (%v) waiting for hub to receive client sent value", i.chanReceiveTimeout)}
-- 
2.43.0


From 476b83119e2275ba2d5aaf93547318edcf39371a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:39 +0000
Subject: [PATCH 39/61] fix: complete the invocation of a method which does not
 return because of runtime.Goexit

---
 loop.go | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/loop.go b/loop.go
index 2c2a609..9043333 100644
--- a/loop.go
+++ b/loop.go
@@ -238,21 +238,25 @@ func (l *loop) handleInvocationMessage(invocation invocationMessage) {
 		// hub method might take a long time
 		go func() {
 			returned := false
+			// Deferred, because the goroutine ends without returning when the method calls runtime.Goexit
+			defer func() {
+				if !returned {
+					// The invocation is already completed with error. Nobody will receive its streams anymore
+					for _, streamID := range invocation.StreamIds {
+						if l.streamClient.handlesInvocationID(streamID) {
+							_ = l.hubConn.Completion(streamID, nil, fmt.Sprintf("panic in method %s", invocation.Target))
+						}
+					}
+				}
+			}()
 			result := func() []reflect.Value {
-				defer l.recoverInvocationPanic(invocation)
+				defer l.recoverInvocationPanic(invocation, &returned)
 				result := method.Call(in)
 				returned = true
 				return result
 			}()
 			if returned {
 				l.returnInvocationResult(invocation, result)
-			} else {
-				// The invocation is already completed with error. Nobody will receive its streams anymore
-				for _, streamID := range invocation.StreamIds {
-					if l.streamClient.handlesInvocationID(streamID) {
-						_ = l.hubConn.Completion(streamID, nil, fmt.Sprintf("panic in method %s", invocation.Target))
-					}
-				}
 			}
 		}()
 	}
@@ -399,8 +403,11 @@ func streamItem(sl *loop, invocation invocationMessage, value interface{}) {
 	_ = sl.hubConn.StreamItem(invocation.InvocationID, value)
 }
 
-func (l *loop) recoverInvocationPanic(invocation invocationMessage) {
-	if err := recover(); err != nil {
+func (l *loop) recoverInvocationPanic(invocation invocationMessage, returned *bool) {
+	if err := recover(); !*returned {
+		if err == nil {
+			err = "method did not return"
+		}
 		_ = l.info.Log(evt, "panic in target method", "error", err, "name", invocation.Target, react, "send completion with error")
 		stack := string(debug.Stack())
 		_ = l.dbg.Log(evt, "panic in target method", "error", err, "name", invocation.Target, react, "send completion with error", "stack", stack)
-- 
2.43.0


From 44f6efa0e3ceee33c49d7c07a1a2caceffeb856f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:30 +0000
Subject: [PATCH 40/61] fix: a message which can not be encoded fails its
 sender only, and not the connection

---
 hubconnection.go | 32 ++++++++++++++++++++++++++------
 loop.go          | 13 +++++++++----
 streamer.go      |  7 ++++++-
 3 files changed, 41 insertions(+), 11 deletions(-)

diff --git a/hubconnection.go b/hubconnection.go
index a6ac60c..5e2b2a1 100644
--- a/hubconnection.go
+++ b/hubconnection.go
@@ -109,13 +109,13 @@ func (c *defaultHubConnection) write(ctx context.Context, message interface{}) e
 	if _, ok := message.(closeMessage); ok && c.ctx.Err() != nil {
 		c.closed = true
 	}
-	c.mx.Lock()
-	c.lastWriteStamp = time.Now()
-	c.mx.Unlock()
 	e := make(chan error, 1)
 	go func() {
-		writer := &messageWriter{writer: c.connection}
+		writer := &messageWriter{writer: c.connection, start: c.stampWrite}
 		err := c.protocol.WriteMessage(message, writer)
+		if err != nil && !writer.started {
+			err = &encodingError{err}
+		}
 		c.incomplete = writer.incomplete
 		<-c.writing
 		e <- err
@@ -128,14 +128,27 @@ func (c *defaultHubConnection) write(ctx context.Context, message interface{}) e
 	}
 }
 
-// messageWriter finds out if a message has been written incompletely
+// encodingError tells that a message could not be encoded. Nothing of it was written, so other messages can follow
+type encodingError struct {
+	error
+}
+
+func (e *encodingError) Unwrap() error { return e.error }
+
+// messageWriter finds out if a message has been written incompletely or not at all
 type messageWriter struct {
 	writer     io.Writer
+	start      func()
+	started    bool
 	written    int
 	incomplete bool
 }
 
 func (w *messageWriter) Write(p []byte) (n int, err error) {
+	if !w.started {
+		w.started = true
+		w.start()
+	}
 	n, err = w.writer.Write(p)
 	w.written += n
 	if n < len(p) {
@@ -286,6 +299,12 @@ func (c *defaultHubConnection) Ping() error {
 	return c.writeMessage(pingMessage)
 }
 
+func (c *defaultHubConnection) stampWrite() {
+	defer c.mx.Unlock()
+	c.mx.Lock()
+	c.lastWriteStamp = time.Now()
+}
+
 func (c *defaultHubConnection) LastWriteStamp() time.Time {
 	defer c.mx.Unlock()
 	c.mx.Lock()
@@ -301,7 +320,8 @@ func (c *defaultHubConnection) writeMessage(message interface{}) error {
 		if c.ctx.Err() != nil && err != nil {
 			return fmt.Errorf("hubConnection canceled: %w", c.ctx.Err())
 		}
-		if err != nil {
+		// When the message could not be encoded, only the sender is affected
+		if encErr := (*encodingError)(nil); err != nil && !errors.As(err, &encErr) {
 			c.Abort()
 		}
 		return err
diff --git a/loop.go b/loop.go
index 9043333..005314c 100644
--- a/loop.go
+++ b/loop.go
@@ -319,7 +319,6 @@ func (l *loop) returnInvocationResult(invocation invocationMessage, result []ref
 				// Return a single StreamItem and an empty Completion
 				l.streamer.Forget(invocation.InvocationID)
 				l.sendResult(invocation, streamItem, result)
-				_ = l.hubConn.Completion(invocation.InvocationID, nil, "")
 			}
 		}
 	}
@@ -395,12 +394,18 @@ func (l *loop) sendResult(invocation invocationMessage, connFunc connFunc, resul
 type connFunc func(sl *loop, invocation invocationMessage, value interface{})
 
 func completion(sl *loop, invocation invocationMessage, value interface{}) {
-	_ = sl.hubConn.Completion(invocation.InvocationID, value, "")
+	if err := sl.hubConn.Completion(invocation.InvocationID, value, ""); err != nil {
+		// The value might be one which can not be encoded
+		_ = sl.hubConn.Completion(invocation.InvocationID, nil, err.Error())
+	}
 }
 
 func streamItem(sl *loop, invocation invocationMessage, value interface{}) {
-
-	_ = sl.hubConn.StreamItem(invocation.InvocationID, value)
+	errorText := ""
+	if err := sl.hubConn.StreamItem(invocation.InvocationID, value); err != nil {
+		errorText = err.Error()
+	}
+	_ = sl.hubConn.Completion(invocation.InvocationID, nil, errorText)
 }
 
 func (l *loop) recoverInvocationPanic(invocation invocationMessage, returned *bool) {
diff --git a/streamer.go b/streamer.go
index 0dc3357..be3431d 100644
--- a/streamer.go
+++ b/streamer.go
@@ -77,7 +77,12 @@ func (s *streamer) Start(invocationID string, reflectedChannel reflect.Value) {
 				_ = s.conn.Completion(invocationID, nil, "")
 				return
 			}
-			_ = s.conn.StreamItem(invocationID, chanResult.Interface())
+			if err := s.conn.StreamItem(invocationID, chanResult.Interface()); err != nil {
+				// The item might be one which can not be encoded
+				s.Forget(invocationID)
+				_ = s.conn.Completion(invocationID, nil, err.Error())
+				return
+			}
 		}
 	}()
 }
-- 
2.43.0


From 4465c0fc09684169a2ce1a8c9722b09a87e29d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:03 +0000
Subject: [PATCH 41/61] fix: a panic in the methods which encode a value ended
 the process

---
 hubconnection.go | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/hubconnection.go b/hubconnection.go
index 5e2b2a1..674f317 100644
--- a/hubconnection.go
+++ b/hubconnection.go
@@ -112,13 +112,20 @@ func (c *defaultHubConnection) write(ctx context.Context, message interface{}) e
 	e := make(chan error, 1)
 	go func() {
 		writer := &messageWriter{writer: c.connection, start: c.stampWrite}
-		err := c.protocol.WriteMessage(message, writer)
-		if err != nil && !writer.started {
-			err = &encodingError{err}
-		}
-		c.incomplete = writer.incomplete
-		<-c.writing
-		e <- err
+		err := errors.New("the message was not written")
+		// Deferred, because encoding might call methods of the values, which might panic
+		defer func() {
+			if r := recover(); r != nil {
+				err = fmt.Errorf("panic while writing the message: %v", r)
+			}
+			if err != nil && !writer.started {
+				err = &encodingError{err}
+			}
+			c.incomplete = writer.incomplete
+			<-c.writing
+			e <- err
+		}()
+		err = c.protocol.WriteMessage(message, writer)
 	}()
 	select {
 	case err := <-e:
@@ -149,14 +156,13 @@ func (w *messageWriter) Write(p []byte) (n int, err error) {
 		w.started = true
 		w.start()
 	}
+	w.incomplete = true // in case of a panic
 	n, err = w.writer.Write(p)
 	w.written += n
-	if n < len(p) {
-		if err == nil {
-			err = io.ErrShortWrite
-		}
-		w.incomplete = w.written > 0
+	if n < len(p) && err == nil {
+		err = io.ErrShortWrite
 	}
+	w.incomplete = n < len(p) && w.written > 0
 	return n, err
 }
 
-- 
2.43.0


From 01f442a3c6fa8998eb3c397f1abc3f4582ebda5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:03 +0000
Subject: [PATCH 42/61] fix: a panic in the methods which decode a JSON
 argument ended the process

---
 jsonhubprotocol.go        | 4 +++-
 messagepackhubprotocol.go | 4 ++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/jsonhubprotocol.go b/jsonhubprotocol.go
index a373838..ca3e326 100644
--- a/jsonhubprotocol.go
+++ b/jsonhubprotocol.go
@@ -50,7 +50,9 @@ func (j *jsonError) Error() string {
 }
 
 // UnmarshalArgument unmarshals a json.RawMessage depending on the specified value type into value
-func (j *jsonHubProtocol) UnmarshalArgument(src interface{}, dst interface{}) error {
+func (j *jsonHubProtocol) UnmarshalArgument(src interface{}, dst interface{}) (err error) {
+	// dst might have an UnmarshalJSON method
+	defer recoverDecoderPanic(&err)
 	rawSrc, ok := src.(json.RawMessage)
 	if !ok {
 		return fmt.Errorf("invalid source %#v for UnmarshalArgument", src)
diff --git a/messagepackhubprotocol.go b/messagepackhubprotocol.go
index 2d64097..25be108 100644
--- a/messagepackhubprotocol.go
+++ b/messagepackhubprotocol.go
@@ -243,10 +243,10 @@ func (m *messagePackHubProtocol) parseMessage(buf *bytes.Buffer) (message interf
 	return hubMessage{Type: msgType}, nil
 }
 
-// recoverDecoderPanic turns a panic of the decoder, e.g. caused by map keys which can not be used as such, into an error
+// recoverDecoderPanic turns a panic while decoding, e.g. caused by map keys which can not be used as such, into an error
 func recoverDecoderPanic(err *error) {
 	if r := recover(); r != nil {
-		*err = fmt.Errorf("messagepack decoder: %v", r)
+		*err = fmt.Errorf("panic while decoding: %v", r)
 	}
 }
 
-- 
2.43.0


From 2b12101f6473ee1de872d666c409a1a8357f3fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:14 +0000
Subject: [PATCH 43/61] fix: send-only channels as results or arguments ended
 the process

---
 loop.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/loop.go b/loop.go
index 005314c..5f4d86d 100644
--- a/loop.go
+++ b/loop.go
@@ -185,7 +185,7 @@ func (l *loop) PushStreams(method, id string, arguments ...interface{}) (<-chan
 	streamIds := make([]string, 0)
 	// Parse arguments for channels and other kind of arguments
 	for _, arg := range arguments {
-		if arg != nil && reflect.TypeOf(arg).Kind() == reflect.Chan {
+		if arg != nil && isReceivableChan(reflect.TypeOf(arg)) {
 			reflectedChannels = append(reflectedChannels, reflect.ValueOf(arg))
 			streamIds = append(streamIds, l.GetNewID())
 		} else {
@@ -289,7 +289,7 @@ func (l *loop) returnInvocationResult(invocation invocationMessage, result []ref
 			result = result[:last]
 		}
 		// if the hub method returns a chan, it should be considered asynchronous or source for a stream
-		if len(result) == 1 && result[0].Kind() == reflect.Chan {
+		if len(result) == 1 && isReceivableChan(result[0].Type()) {
 			switch invocation.Type {
 			// Simple invocation
 			case 1:
@@ -324,6 +324,11 @@ func (l *loop) returnInvocationResult(invocation invocationMessage, result []ref
 	}
 }
 
+// isReceivableChan tells if t is a channel which can be the source of a stream
+func isReceivableChan(t reflect.Type) bool {
+	return t.Kind() == reflect.Chan && t.ChanDir()&reflect.RecvDir != 0
+}
+
 var errorType = reflect.TypeOf((*error)(nil)).Elem()
 
 // numResults returns the number of return values of a method without the optional error as last return value
-- 
2.43.0


From a2e49e4cfa7db4ed35cec7a07c746f8e17e77e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:49 +0000
Subject: [PATCH 44/61] fix: variadic methods could not be invoked

---
 loop.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/loop.go b/loop.go
index 5f4d86d..07daa5e 100644
--- a/loop.go
+++ b/loop.go
@@ -251,7 +251,12 @@ func (l *loop) handleInvocationMessage(invocation invocationMessage) {
 			}()
 			result := func() []reflect.Value {
 				defer l.recoverInvocationPanic(invocation, &returned)
-				result := method.Call(in)
+				call := method.Call
+				if method.Type().IsVariadic() {
+					// The last argument is the slice of all variadic ones
+					call = method.CallSlice
+				}
+				result := call(in)
 				returned = true
 				return result
 			}()
-- 
2.43.0


From 081ad33d560c28ba26966df1ea91acf83d36174d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:12 +0000
Subject: [PATCH 45/61] fix: messages did not reach the connections of the
 server which sent them with Redis

---
 ext/redishublifetimemnager.go | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/ext/redishublifetimemnager.go b/ext/redishublifetimemnager.go
index 2be652b..dd37cdd 100644
--- a/ext/redishublifetimemnager.go
+++ b/ext/redishublifetimemnager.go
@@ -23,11 +23,6 @@ const (
 	// redisConnectionGroupsPrefix = redisChannelPrefix + "connectiongroups:" // Not strictly needed with Redis Sets for membership; local cache is sufficient.
 )
 
-// SECURITY NOTE: This implementation includes protection against infinite loops
-// by tracking the source instance ID and skipping self-messages.
-// Without this protection, Redis Pub/Sub would cause infinite message loops
-// where each instance processes its own published messages.
-
 // redisInvocation represents a message sent over Redis for hub invocations
 type redisInvocation struct {
 	Target         string        `json:"t"`
@@ -35,7 +30,7 @@ type redisInvocation struct {
 	ExcludedIDs    []string      `json:"e,omitempty"` // Optional: Connection IDs to exclude (e.g., for SendAllExcept)
 	GroupName      string        `json:"g,omitempty"` // Used for group messages to identify the target group
 	ConnectionID   string        `json:"c,omitempty"` // Used for client messages to identify the target client
-	SourceInstance string        `json:"s,omitempty"` // Source instance ID to prevent infinite loops
+	SourceInstance string        `json:"s,omitempty"` // Source instance ID, for debugging
 }
 
 // redisHubLifetimeManager manages hub connections using Redis Pub/Sub and Sets
@@ -132,11 +127,8 @@ func (r *redisHubLifetimeManager) handleRedisMessage(msg *redis.Message) {
 		return
 	}
 
-	// CRITICAL: Skip messages from this instance to prevent infinite loops
-	if invocation.SourceInstance == r.instanceID {
-		level.Debug(r.logger).Log("event", "skipped_self_message", "sourceInstance", invocation.SourceInstance, "target", invocation.Target)
-		return
-	}
+	// Messages from this instance are also handled here, because they are not sent to its local connections
+	// in any other way. This can not cause loops, as handling a message never publishes another one.
 
 	// Create exclusion map for faster lookup
 	excludedMap := make(map[string]struct{}, len(invocation.ExcludedIDs))
-- 
2.43.0


From 107b91d39cce1829fce580ddaa7b61bbb8cd8163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:32 +0000
Subject: [PATCH 46/61] fix: broadcasts and messages to groups asked for
 completions with Redis, which ended the connections

---
 ext/redishublifetimemnager.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ext/redishublifetimemnager.go b/ext/redishublifetimemnager.go
index dd37cdd..39fdbe7 100644
--- a/ext/redishublifetimemnager.go
+++ b/ext/redishublifetimemnager.go
@@ -196,7 +196,7 @@ func (r *redisHubLifetimeManager) handleRedisMessage(msg *redis.Message) {
 				// Send the invocation asynchronously
 				go func(conn signalr.HubConnection, connID string) {
 					// Timeout removed as per request
-					err := conn.SendInvocation(uuid.NewString(), invocation.Target, invocation.Args)
+					err := conn.SendInvocation("", invocation.Target, invocation.Args)
 					if err != nil {
 						level.Error(r.logger).Log("event", "send_invocation_failed", "target", "group", "groupName", groupName, "connectionId", connID, "err", err)
 					} else {
@@ -232,7 +232,7 @@ func (r *redisHubLifetimeManager) handleRedisMessage(msg *redis.Message) {
 			go func(conn signalr.HubConnection, connID string) {
 				_, cancel := context.WithTimeout(r.ctx, 5*time.Second)
 				defer cancel()
-				err := conn.SendInvocation(uuid.NewString(), invocation.Target, invocation.Args)
+				err := conn.SendInvocation("", invocation.Target, invocation.Args)
 				if err != nil {
 					level.Error(r.logger).Log("event", "send_invocation_failed", "target", "all", "connectionId", connID, "err", err)
 				} else {
-- 
2.43.0


From 949f8f2a4dce5abe638b66b36342482ab39b86b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:11 +0000
Subject: [PATCH 47/61] fix: integers became floating point numbers and lost
 digits with Redis

---
 ext/redishublifetimemnager.go | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/ext/redishublifetimemnager.go b/ext/redishublifetimemnager.go
index 39fdbe7..107bb88 100644
--- a/ext/redishublifetimemnager.go
+++ b/ext/redishublifetimemnager.go
@@ -3,6 +3,7 @@ package ext
 import (
 	"context"
 	"encoding/json"
+	"strconv"
 	"strings"
 	"sync"
 	"time"
@@ -122,10 +123,16 @@ func (r *redisHubLifetimeManager) handleRedisMessage(msg *redis.Message) {
 	level.Debug(r.logger).Log("event", "received_redis_message", "channel", msg.Channel, "payload_len", len(msg.Payload))
 
 	var invocation redisInvocation
-	if err := json.Unmarshal([]byte(msg.Payload), &invocation); err != nil {
+	decoder := json.NewDecoder(strings.NewReader(msg.Payload))
+	// Numbers should neither lose digits nor become floating point numbers when they were integers
+	decoder.UseNumber()
+	if err := decoder.Decode(&invocation); err != nil {
 		level.Error(r.logger).Log("event", "redis_payload_unmarshal_error", "err", err, "payload", msg.Payload)
 		return
 	}
+	for i, arg := range invocation.Args {
+		invocation.Args[i] = replaceNumbers(arg)
+	}
 
 	// Messages from this instance are also handled here, because they are not sent to its local connections
 	// in any other way. This can not cause loops, as handling a message never publishes another one.
@@ -487,6 +494,30 @@ func (r *redisHubLifetimeManager) RemoveFromGroup(groupName string, connectionID
 
 // --- Helper methods ---
 
+// replaceNumbers replaces each json.Number in a decoded value by an int64, uint64 or float64
+func replaceNumbers(value interface{}) interface{} {
+	switch v := value.(type) {
+	case json.Number:
+		if i, err := strconv.ParseInt(string(v), 10, 64); err == nil {
+			return i
+		}
+		if u, err := strconv.ParseUint(string(v), 10, 64); err == nil {
+			return u
+		}
+		f, _ := v.Float64()
+		return f
+	case []interface{}:
+		for i := range v {
+			v[i] = replaceNumbers(v[i])
+		}
+	case map[string]interface{}:
+		for key := range v {
+			v[key] = replaceNumbers(v[key])
+		}
+	}
+	return value
+}
+
 // groupChannel returns the Redis channel name for a specific group.
 // Used for Pub/Sub.
 func (r *redisHubLifetimeManager) groupChannel(groupName string) string {
-- 
2.43.0


From 5b887d8059487fc159a9ff7ff65ab7d1251a48de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:22 +0000
Subject: [PATCH 48/61] fix: messages to no client went to all and messages to
 the group with the empty name to nobody with Redis

---
 ext/redishublifetimemnager.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ext/redishublifetimemnager.go b/ext/redishublifetimemnager.go
index 107bb88..5d14676 100644
--- a/ext/redishublifetimemnager.go
+++ b/ext/redishublifetimemnager.go
@@ -175,8 +175,8 @@ func (r *redisHubLifetimeManager) handleRedisMessage(msg *redis.Message) {
 	}
 
 	// 2. Message for a group (sent via InvokeGroup)
-	if invocation.GroupName != "" && strings.HasPrefix(msg.Channel, redisGroupChannelPrefix) {
-		groupName := invocation.GroupName // Group name is in the payload
+	if strings.HasPrefix(msg.Channel, redisGroupChannelPrefix) {
+		groupName := invocation.GroupName // Group name is in the payload. It might be empty
 		level.Debug(r.logger).Log("event", "processing_group_message", "group", groupName, "method", invocation.Target)
 
 		// Iterate through local connections ONLY
@@ -341,6 +341,10 @@ func (r *redisHubLifetimeManager) InvokeClient(connectionID string, target strin
 	//   // Let's stick to the Redis publish model for simplicity and consistency.
 	// }
 
+	if connectionID == "" {
+		// There is no such client. The message would be taken for one for all clients
+		return
+	}
 	msg := redisInvocation{Target: target, Args: args, ConnectionID: connectionID, SourceInstance: r.instanceID}
 	payload, err := json.Marshal(msg)
 	if err != nil {
-- 
2.43.0


From e1782aca3c9ffdd6a92c96ddd6f8c4689aca5134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:55 +0000
Subject: [PATCH 49/61] fix: concurrent changes of the groups of a connection
 ended the process with Redis

---
 ext/redishublifetimemnager.go | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/ext/redishublifetimemnager.go b/ext/redishublifetimemnager.go
index 5d14676..d0021e7 100644
--- a/ext/redishublifetimemnager.go
+++ b/ext/redishublifetimemnager.go
@@ -36,8 +36,9 @@ type redisInvocation struct {
 
 // redisHubLifetimeManager manages hub connections using Redis Pub/Sub and Sets
 type redisHubLifetimeManager struct {
-	clients          sync.Map // Map[string]signalr.HubConnection - Local connections on this server instance
-	connectionGroups sync.Map // Map[string]map[string]struct{} - Local cache: connectionID -> set of groupNames this connection belongs to *locally*
+	clients          sync.Map   // Map[string]signalr.HubConnection - Local connections on this server instance
+	connectionGroups sync.Map   // Map[string]map[string]struct{} - Local cache: connectionID -> set of groupNames this connection belongs to *locally*
+	groupSetsMx      sync.Mutex // Guards the sets in connectionGroups, as hubs change the groups of a connection concurrently
 	redisClient      *redis.Client
 	pubSub           *redis.PubSub
 	logger           signalr.StructuredLogger
@@ -279,13 +280,20 @@ func (r *redisHubLifetimeManager) OnDisconnected(conn signalr.HubConnection) {
 			return // Cannot proceed if cache is corrupt
 		}
 
-		if len(groupSet) > 0 {
+		groupNames := make([]string, 0)
+		r.groupSetsMx.Lock()
+		for groupName := range groupSet {
+			groupNames = append(groupNames, groupName)
+		}
+		r.groupSetsMx.Unlock()
+
+		if len(groupNames) > 0 {
 			// Use a pipeline for efficiency if removing from multiple groups
 			pipe := r.redisClient.Pipeline()
 			ctx, cancel := context.WithTimeout(r.ctx, 5*time.Second) // Timeout for Redis operation
 			defer cancel()
 
-			for groupName := range groupSet {
+			for _, groupName := range groupNames {
 				redisKey := r.groupMembershipKey(groupName)
 				pipe.SRem(ctx, redisKey, connectionID)
 				level.Debug(r.logger).Log("event", "queueing_redis_srem", "group", groupName, "connectionId", connectionID)
@@ -296,7 +304,7 @@ func (r *redisHubLifetimeManager) OnDisconnected(conn signalr.HubConnection) {
 				level.Error(r.logger).Log("event", "redis_srem_pipeline_failed", "connectionId", connectionID, "err", err)
 				// Log the error, but the connection is already considered disconnected locally.
 			} else if err == nil {
-				level.Debug(r.logger).Log("event", "executed_redis_srem_pipeline", "connectionId", connectionID, "group_count", len(groupSet))
+				level.Debug(r.logger).Log("event", "executed_redis_srem_pipeline", "connectionId", connectionID, "group_count", len(groupNames))
 			}
 		}
 	} else {
@@ -419,6 +427,7 @@ func (r *redisHubLifetimeManager) InvokeGroupExcept(groupName string, target str
 // AddToGroup adds the connection to the local cache and the Redis Set.
 func (r *redisHubLifetimeManager) AddToGroup(groupName string, connectionID string) {
 	// Add to local cache first
+	r.groupSetsMx.Lock()
 	groupsRaw, loaded := r.connectionGroups.Load(connectionID)
 	if !loaded {
 		// This might happen if OnConnected hasn't finished or connection disconnected rapidly.
@@ -431,11 +440,13 @@ func (r *redisHubLifetimeManager) AddToGroup(groupName string, connectionID stri
 
 	groupSet, castOK := groupsRaw.(map[string]struct{})
 	if !castOK {
+		r.groupSetsMx.Unlock()
 		level.Error(r.logger).Log("event", "invalid_group_cache_type_on_add", "connectionId", connectionID)
 		// Don't proceed with Redis if local cache is bad.
 		return
 	}
 	groupSet[groupName] = struct{}{} // Add to the local set
+	r.groupSetsMx.Unlock()
 
 	// Add connection ID to the Redis Set for the group
 	redisKey := r.groupMembershipKey(groupName)
@@ -448,7 +459,9 @@ func (r *redisHubLifetimeManager) AddToGroup(groupName string, connectionID stri
 		// For simplicity, we leave it in the local cache. If Redis fails,
 		// the connection might not receive group messages, but disconnect
 		// will still try to clean up the (potentially non-existent) Redis entry.
+		r.groupSetsMx.Lock()
 		delete(groupSet, groupName) // Rollback local add on Redis failure
+		r.groupSetsMx.Unlock()
 	} else {
 		level.Debug(r.logger).Log("event", "added_to_redis_group", "group", groupName, "connectionId", connectionID)
 	}
@@ -460,6 +473,7 @@ func (r *redisHubLifetimeManager) AddToGroup(groupName string, connectionID stri
 func (r *redisHubLifetimeManager) RemoveFromGroup(groupName string, connectionID string) {
 	// Remove from local cache
 	removedLocally := false
+	r.groupSetsMx.Lock()
 	if groupsRaw, ok := r.connectionGroups.Load(connectionID); ok {
 		groupSet, castOK := groupsRaw.(map[string]struct{})
 		if castOK {
@@ -475,6 +489,7 @@ func (r *redisHubLifetimeManager) RemoveFromGroup(groupName string, connectionID
 	} else {
 		level.Warn(r.logger).Log("event", "group_cache_not_found_on_remove", "connectionId", connectionID, "group", groupName)
 	}
+	r.groupSetsMx.Unlock()
 
 	// Remove connection ID from the Redis Set for the group
 	redisKey := r.groupMembershipKey(groupName)
-- 
2.43.0


From 26be9f0d4a70f25fbe528401b2592c3fc9daf663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:38 +0000
Subject: [PATCH 50/61] fix: the handshake response which refuses a protocol
 was made while its error changed

---
 server.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/server.go b/server.go
index a28a3a5..831d0db 100644
--- a/server.go
+++ b/server.go
@@ -299,11 +299,12 @@ func (s *server) sendHandshakeResponse(conn Connection, request handshakeRequest
 	} else {
 		err = fmt.Errorf("protocol %v not supported", request.Protocol)
 		_ = info.Log(evt, "protocol requested", "error", err)
+		// The error contains text of the peer, which has to be escaped
+		errorHandshakeResponse, _ := json.Marshal(handshakeResponse{Error: err.Error()})
+		errorHandshakeResponse = append(errorHandshakeResponse, 0x1e)
 		if _, respErr := ReadWriteWithContext(ctx,
 			func() (int, error) {
-				// The error contains text of the peer, which has to be escaped
-				errorHandshakeResponse, _ := json.Marshal(handshakeResponse{Error: err.Error()})
-				return conn.Write(append(errorHandshakeResponse, 0x1e))
+				return conn.Write(errorHandshakeResponse)
 			}, func() {}); respErr != nil {
 			_ = dbg.Log(evt, "handshake sent", "error", respErr)
 			err = respErr
-- 
2.43.0


From 7d422297692e9bee73a6140abc584ba054c2b3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:04 +0000
Subject: [PATCH 51/61] fix: Start while Stop was called could end the process
 by misuse of the WaitGroup

---
 client.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/client.go b/client.go
index 306f7e7..bf17ce2 100644
--- a/client.go
+++ b/client.go
@@ -160,13 +160,23 @@ type client struct {
 	lastID            int64
 	backoffFactory    func() backoff.BackOff
 	cancelFunc        context.CancelFunc
+	startMx           sync.Mutex
 }
 
 func (c *client) Start() {
 	c.setState(ClientConnecting)
 	boff := c.backoffFactory()
 
+	// Stop does not wait for what starts after it
+	c.startMx.Lock()
+	if err := c.ctx.Err(); err != nil {
+		c.startMx.Unlock()
+		c.setErr(err)
+		c.setState(ClientClosed)
+		return
+	}
 	c.waitGroup().Add(1)
+	c.startMx.Unlock()
 
 	go func() {
 		defer c.waitGroup().Done()
@@ -209,7 +219,9 @@ func (c *client) Start() {
 
 func (c *client) Stop() {
 	if c.cancelFunc != nil {
+		c.startMx.Lock()
 		c.cancelFunc()
+		c.startMx.Unlock()
 
 		c.waitGroup().Wait()
 		c.setState(ClientClosed)
-- 
2.43.0


From 1e3a4456239f025c41cbd3cfa07eb6313e5e606f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:08 +0000
Subject: [PATCH 52/61] fix: a hub mapped to / had its negotiation at
 //negotiate, which no client requests

---
 server.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/server.go b/server.go
index 831d0db..13b5dd8 100644
--- a/server.go
+++ b/server.go
@@ -9,6 +9,7 @@ import (
 	"os" // Add os import
 	"reflect"
 	"runtime/debug"
+	"strings"
 	"sync"
 
 	"github.com/go-kit/log"
@@ -117,7 +118,7 @@ func WithHTTPServeMux(serveMux *http.ServeMux) func() MappableRouter {
 func (s *server) MapHTTP(routerFactory func() MappableRouter, path string) {
 	httpMux := newHTTPMux(s)
 	router := routerFactory()
-	router.HandleFunc(fmt.Sprintf("%s/negotiate", path), httpMux.negotiate)
+	router.HandleFunc(fmt.Sprintf("%s/negotiate", strings.TrimSuffix(path, "/")), httpMux.negotiate)
 	router.Handle(path, httpMux)
 }
 
-- 
2.43.0


From 41be6384a7c06dd815363edc410a6ebd70fb1d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:08 +0000
Subject: [PATCH 53/61] fix: the client unescaped the path of its URL for the
 negotiation

---
 httpconnection.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/httpconnection.go b/httpconnection.go
index 8fa12f3..f7366d0 100644
--- a/httpconnection.go
+++ b/httpconnection.go
@@ -7,7 +7,6 @@ import (
 	"io"
 	"net/http"
 	"net/url"
-	"path"
 
 	"github.com/coder/websocket"
 	"github.com/quic-go/webtransport-go"
@@ -94,8 +93,7 @@ func NewHTTPConnection(ctx context.Context, address string, options ...func(*htt
 		return nil, err
 	}
 
-	negotiateURL := *reqURL
-	negotiateURL.Path = path.Join(negotiateURL.Path, "negotiate")
+	negotiateURL := reqURL.JoinPath("negotiate")
 	if httpConn.negotiateVersion != nil {
 		q := negotiateURL.Query()
 		q.Set("negotiateVersion", fmt.Sprint(*httpConn.negotiateVersion))
-- 
2.43.0


From 35f6167d8df421be8d7befabb03e57914c99a493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:14 +0000
Subject: [PATCH 54/61] fix: groups without members were kept forever

---
 hublifetimemanager.go | 36 +++++++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/hublifetimemanager.go b/hublifetimemanager.go
index 2e0300f..6f5788f 100644
--- a/hublifetimemanager.go
+++ b/hublifetimemanager.go
@@ -42,18 +42,28 @@ type defaultHubLifetimeManager struct {
 type groupMap struct {
 	mu      sync.RWMutex
 	members map[string]HubConnection
+	dropped bool // the group was empty and is not used anymore
 }
 
-func (g *groupMap) add(id string, conn HubConnection) {
+// add returns false when the group is not used anymore
+func (g *groupMap) add(id string, conn HubConnection) bool {
 	g.mu.Lock()
-	g.members[id] = conn
-	g.mu.Unlock()
+	defer g.mu.Unlock()
+	if !g.dropped {
+		g.members[id] = conn
+	}
+	return !g.dropped
 }
 
-func (g *groupMap) remove(id string) {
+// remove calls drop when the last member has been removed
+func (g *groupMap) remove(id string, drop func()) {
 	g.mu.Lock()
+	defer g.mu.Unlock()
 	delete(g.members, id)
-	g.mu.Unlock()
+	if len(g.members) == 0 && !g.dropped {
+		g.dropped = true
+		drop()
+	}
 }
 
 // snapshot returns a stable copy of the current members for safe iteration.
@@ -73,8 +83,8 @@ func (d *defaultHubLifetimeManager) OnConnected(conn HubConnection) {
 
 func (d *defaultHubLifetimeManager) OnDisconnected(conn HubConnection) {
 	d.clients.Delete(conn.ConnectionID())
-	d.groups.Range(func(_, value any) bool {
-		value.(*groupMap).remove(conn.ConnectionID())
+	d.groups.Range(func(key, value any) bool {
+		value.(*groupMap).remove(conn.ConnectionID(), func() { d.groups.Delete(key) })
 		return true
 	})
 }
@@ -109,17 +119,21 @@ func (d *defaultHubLifetimeManager) InvokeGroup(groupName string, target string,
 
 func (d *defaultHubLifetimeManager) AddToGroup(groupName string, connectionID string) {
 	if client, ok := d.clients.Load(connectionID); ok {
-		gm, _ := d.groups.LoadOrStore(groupName, &groupMap{members: make(map[string]HubConnection)})
-		gm.(*groupMap).add(connectionID, client.(HubConnection))
+		for {
+			gm, _ := d.groups.LoadOrStore(groupName, &groupMap{members: make(map[string]HubConnection)})
+			if gm.(*groupMap).add(connectionID, client.(HubConnection)) {
+				break
+			}
+		}
 		// The connection might have been disconnected in the meantime
 		if _, ok := d.clients.Load(connectionID); !ok {
-			gm.(*groupMap).remove(connectionID)
+			d.RemoveFromGroup(groupName, connectionID)
 		}
 	}
 }
 
 func (d *defaultHubLifetimeManager) RemoveFromGroup(groupName string, connectionID string) {
 	if gm, ok := d.groups.Load(groupName); ok {
-		gm.(*groupMap).remove(connectionID)
+		gm.(*groupMap).remove(connectionID, func() { d.groups.Delete(groupName) })
 	}
 }
-- 
2.43.0


From 9cfcb40be5591d331e724b5f4f92dcbcee9fb7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:24 +0000
Subject: [PATCH 55/61] fix: the streams of a call which could not be sent were
 kept forever

---
 loop.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/loop.go b/loop.go
index 07daa5e..5ccaba7 100644
--- a/loop.go
+++ b/loop.go
@@ -198,6 +198,9 @@ func (l *loop) PushStreams(method, id string, arguments ...interface{}) (<-chan
 	// Tell the server we are streaming now
 	if err := l.hubConn.SendInvocationWithStreamIds(id, method, invokeArgs, streamIds); err != nil {
 		l.invokeClient.deleteInvocation(id)
+		for _, streamID := range streamIds {
+			l.streamer.Forget(streamID)
+		}
 		go drainInvokeResults(irCh)
 		return nil, err
 	}
-- 
2.43.0


From 1daf0a6a13e3d37aa0831ca840aa8538166d073e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:34 +0000
Subject: [PATCH 56/61] fix: without a limit of streams, cancels of unknown
 streams were kept forever

---
 streamer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/streamer.go b/streamer.go
index be3431d..6d12ece 100644
--- a/streamer.go
+++ b/streamer.go
@@ -91,8 +91,8 @@ func (s *streamer) Stop(invocationID string) {
 	s.mx.Lock()
 	defer s.mx.Unlock()
 	stop, ok := s.streams[invocationID]
-	// Cancels for unknown streams have no effect, so remember only some of them
-	if !ok && s.maxCancels > 0 && atomic.LoadInt64(&s.cancelCount) >= int64(s.maxCancels) {
+	// Cancels for unknown streams have no effect, so remember only some of them, or none when there is no limit
+	if !ok && (s.maxCancels == 0 || atomic.LoadInt64(&s.cancelCount) >= int64(s.maxCancels)) {
 		return
 	}
 	if _, loaded := s.cancels.LoadOrStore(invocationID, struct{}{}); !loaded {
-- 
2.43.0


From cd3335f0521e147b5cc2d91eabad7d7f1da68d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:42 +0000
Subject: [PATCH 57/61] fix: Stop did not return while the connector waited for
 a server

---
 client.go | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/client.go b/client.go
index bf17ce2..e099390 100644
--- a/client.go
+++ b/client.go
@@ -296,7 +296,7 @@ func (c *client) setupConnectionAndProtocol() (Connection, hubProtocol, []byte,
 			return nil, nil, nil, ErrUnableToConnect
 		}
 		var err error
-		conn, err = c.connectionFactory()
+		conn, err = c.connect()
 		if err != nil {
 			return nil, nil, nil, err
 		}
@@ -316,6 +316,31 @@ func (c *client) setupConnectionAndProtocol() (Connection, hubProtocol, []byte,
 	return conn, protocol, received, nil
 }
 
+// connect creates a new connection. When the client is stopped, it does not wait for it any longer
+func (c *client) connect() (Connection, error) {
+	type result struct {
+		conn Connection
+		err  error
+	}
+	ch := make(chan result, 1)
+	go func() {
+		conn, err := c.connectionFactory()
+		ch <- result{conn, err}
+	}()
+	select {
+	case r := <-ch:
+		return r.conn, r.err
+	case <-c.ctx.Done():
+		go func() {
+			// Nobody uses the connection anymore
+			if r := <-ch; r.err == nil {
+				closeConnection(r.conn)
+			}
+		}()
+		return nil, c.ctx.Err()
+	}
+}
+
 // closeConnection releases the resources of a connection which is not used anymore
 func closeConnection(conn Connection) {
 	if closer, ok := conn.(interface{ close() }); ok {
-- 
2.43.0


From b48652f44b09661482c93f586f223ca08ede6240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:51 +0000
Subject: [PATCH 58/61] fix: the context of NewHTTPConnection did not cancel
 the request for server sent events

---
 httpconnection.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/httpconnection.go b/httpconnection.go
index f7366d0..37d9852 100644
--- a/httpconnection.go
+++ b/httpconnection.go
@@ -191,7 +191,10 @@ func NewHTTPConnection(ctx context.Context, address string, options ...func(*htt
 		conn = newWebSocketConnection(context.Background(), negotiateResponse.ConnectionID, ws)
 
 	case httpConn.hasTransport(TransportServerSentEvents) && negotiateResponse.hasTransport(TransportServerSentEvents):
-		req, err := http.NewRequest("GET", reqURL.String(), nil)
+		// ctx can cancel the request until there is a connection
+		getCtx, cancel := context.WithCancel(context.Background())
+		defer context.AfterFunc(ctx, cancel)()
+		req, err := http.NewRequestWithContext(getCtx, "GET", reqURL.String(), nil)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 3ff2a6c1d1c96e6330fe39764afca558f83cd85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:31:08 +0000
Subject: [PATCH 59/61] fix: options accepted intervals which are not positive,
 with which tickers panic later

---
 options.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/options.go b/options.go
index e02ed6d..8e1921a 100644
--- a/options.go
+++ b/options.go
@@ -15,6 +15,9 @@ import (
 // Default is 30 seconds.
 func TimeoutInterval(timeout time.Duration) func(Party) error {
 	return func(p Party) error {
+		if timeout <= 0 {
+			return fmt.Errorf("unsupported TimeoutInterval %v", timeout)
+		}
 		p.setTimeout(timeout)
 		return nil
 	}
@@ -27,6 +30,9 @@ func TimeoutInterval(timeout time.Duration) func(Party) error {
 // see https://github.com/dotnet/aspnetcore/blob/master/src/SignalR/docs/specs/HubProtocol.md
 func HandshakeTimeout(timeout time.Duration) func(Party) error {
 	return func(p Party) error {
+		if timeout <= 0 {
+			return fmt.Errorf("unsupported HandshakeTimeout %v", timeout)
+		}
 		p.setHandshakeTimeout(timeout)
 		return nil
 	}
@@ -39,6 +45,9 @@ func HandshakeTimeout(timeout time.Duration) func(Party) error {
 // Default is 15 seconds.
 func KeepAliveInterval(interval time.Duration) func(Party) error {
 	return func(p Party) error {
+		if interval <= 0 {
+			return fmt.Errorf("unsupported KeepAliveInterval %v", interval)
+		}
 		p.setKeepAliveInterval(interval)
 		return nil
 	}
-- 
2.43.0


From 6ebd9c3206e2b95ac410da890016416b4b53a021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:09:12 +0000
Subject: [PATCH 60/61] fix: log events of the message loop had the received
 message as key

---
 loop.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/loop.go b/loop.go
index 5ccaba7..a006260 100644
--- a/loop.go
+++ b/loop.go
@@ -85,11 +85,11 @@ func (l *loop) Run(connected chan struct{}) (err error) {
 msgLoop:
 	for {
 		select {
-		case evt := <-ch:
-			err = evt.err
+		case received := <-ch:
+			err = received.err
 			timeoutTicker.Reset(l.party.timeout())
 			if err == nil {
-				switch message := evt.message.(type) {
+				switch message := received.message.(type) {
 				case invocationMessage:
 					l.handleInvocationMessage(message)
 				case cancelInvocationMessage:
@@ -111,7 +111,7 @@ msgLoop:
 					// No default case necessary, because the protocol would return either a hubMessage or an error
 				}
 			} else {
-				_ = l.info.Log(evt, msgRecv, "error", err, msg, fmtMsg(evt.message), react, "close connection")
+				_ = l.info.Log(evt, msgRecv, "error", err, msg, fmtMsg(received.message), react, "close connection")
 			}
 		case <-timeoutTicker.C:
 			if len(ch) > 0 {
-- 
2.43.0


From bb0077fcd272e96fd980cdec2a1a71006039e6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:09:29 +0000
Subject: [PATCH 61/61] fix: a stopped party went on handling messages which
 had arrived before

---
 loop.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/loop.go b/loop.go
index a006260..59c07a4 100644
--- a/loop.go
+++ b/loop.go
@@ -124,6 +124,10 @@ msgLoop:
 		case <-l.party.Context().Done():
 			err = fmt.Errorf("breaking loop. Party canceled: %w", l.party.Context().Err())
 		}
+		if err == nil && l.closeMessage == nil && l.party.Context().Err() != nil {
+			// Handling the message before took long. When more messages wait, select might prefer them
+			err = fmt.Errorf("breaking loop. Party canceled: %w", l.party.Context().Err())
+		}
 		if err != nil || l.closeMessage != nil {
 			break msgLoop
 		}
-- 
2.43.0

