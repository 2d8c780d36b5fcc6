From 768953e549a8514b8f8df5b7a0a8f07b93612251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:23 +0000
Subject: [PATCH 01/39] fix: decode a frame without changing or reading past
 its bytes

Decode calculated the checksum with append() on a subslice of the callers
buffer, which overwrote the checksum byte in place. The reader removes one
byte and tries again after a bad checksum, so a stray start byte could zero a
byte inside the next valid frame, which then was lost. The message was also
decoded from the complete buffer instead of only the frame.
---
 serialapi/message.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/serialapi/message.go b/serialapi/message.go
index 13414f0..6d8f905 100644
--- a/serialapi/message.go
+++ b/serialapi/message.go
@@ -49,13 +49,16 @@ func Decode(data []byte) (length int, msg *Message, err error) {
 			return length + 2, nil, nil
 		}
 
-		checksum := data[length+1]
-		checksumData := append(data[1:length+1], byte(0x00))
+		// Work on a copy of the frame: the callers buffer must not be changed, and whatever follows the frame in it is not part of the message
+		frame := append([]byte(nil), data[:length+2]...)
+		checksum := frame[length+1]
+		frame[length+1] = 0x00
+		checksumData := frame[1:]
 		if checksum != GenerateChecksum(checksumData) {
 			return -1, nil, fmt.Errorf("Invalid checksum, is 0x%x should be 0x%x, (len=%d)", checksum, GenerateChecksum(checksumData), length)
 		}
 
-		msg, err := NewMessage(data)
+		msg, err := NewMessage(frame)
 
 		return length + 2, msg, err
 	case 0x06, 0x15, 0x18: // ACK, NAC, CAN
-- 
2.43.0


From a3fafe75e58d43e5d225830a7a573147cfa88d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:24 +0000
Subject: [PATCH 02/39] fix: decode ACK, NAK and CAN from their single byte

When more data followed in the same read (an ACK directly followed by the
response is common) the rest of the buffer was decoded as the body of the ACK,
which crashed or returned a nil message that the reader then dereferenced.
---
 serialapi/message.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serialapi/message.go b/serialapi/message.go
index 6d8f905..b770d3b 100644
--- a/serialapi/message.go
+++ b/serialapi/message.go
@@ -62,7 +62,7 @@ func Decode(data []byte) (length int, msg *Message, err error) {
 
 		return length + 2, msg, err
 	case 0x06, 0x15, 0x18: // ACK, NAC, CAN
-		msg, err := NewMessage(data)
+		msg, err := NewMessage(data[:1])
 		if err != nil {
 			logrus.Error(err)
 		}
-- 
2.43.0


From 15efadc6486790493a408df7f2eddda4bfc45143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:43 +0000
Subject: [PATCH 03/39] fix: reject messages that are to short for their
 content

A frame with a valid checksum but a payload length pointing outside of the
frame, an empty application command or a node mask longer than the 232 nodes
of a network crashed the reader with an index out of range.
---
 serialapi/application_command_handler.go |  6 +++++
 serialapi/discovery_nodes.go             |  3 +++
 serialapi/message.go                     | 31 ++++++++++++++++++++++--
 3 files changed, 38 insertions(+), 2 deletions(-)

diff --git a/serialapi/application_command_handler.go b/serialapi/application_command_handler.go
index 7d9b3d4..460f435 100644
--- a/serialapi/application_command_handler.go
+++ b/serialapi/application_command_handler.go
@@ -1,6 +1,8 @@
 package serialapi
 
 import (
+	"fmt"
+
 	"github.com/stampzilla/gozwave/commands"
 	"github.com/stampzilla/gozwave/commands/reports"
 )
@@ -17,6 +19,10 @@ type FuncApplicationCommandHandler struct {
 func NewApplicationCommandHandler(data []byte) (*FuncApplicationCommandHandler, error) {
 	f := &FuncApplicationCommandHandler{}
 
+	if len(data) < 2 {
+		return nil, fmt.Errorf("wrong length, should be at least 2 bytes got %d", len(data))
+	}
+
 	f.Command = commands.ZWaveCommand(data[0])
 	f.Class = data[1]
 
diff --git a/serialapi/discovery_nodes.go b/serialapi/discovery_nodes.go
index 59275ae..d52fa04 100644
--- a/serialapi/discovery_nodes.go
+++ b/serialapi/discovery_nodes.go
@@ -17,6 +17,9 @@ func NewDiscoverdNodes(data []byte) (*DiscoverdNodes, error) {
 	if len(data) < 6 {
 		return nil, fmt.Errorf("wrong length, should be at least 6 bytes got %d", len(data))
 	}
+	if len(data) > len(f.ActiveNodes)/8 {
+		return nil, fmt.Errorf("wrong length, should be at most %d bytes got %d", len(f.ActiveNodes)/8, len(data))
+	}
 
 	for index, bits := range data {
 		f.ActiveNodes[index*8+0] = bits&0x01 != 0
diff --git a/serialapi/message.go b/serialapi/message.go
index b770d3b..0e7004d 100644
--- a/serialapi/message.go
+++ b/serialapi/message.go
@@ -103,6 +103,20 @@ func CompileMessage(data []byte) []byte {
 	return msg
 }
 
+// variablePayload returns the part of the message that has its length in byte 6, and makes sure that it is inside of the message
+func variablePayload(data []byte) ([]byte, error) {
+	if len(data) < 7 {
+		return nil, fmt.Errorf("Message is to short, got %d bytes: %x", len(data), data)
+	}
+
+	end := 7 + int(data[6])
+	if end > len(data) || end > int(data[1])+1 {
+		return nil, fmt.Errorf("Message payload is truncated, expected %d bytes: %x", data[6], data)
+	}
+
+	return data[7:end], nil
+}
+
 // NewMessage tries to decode a binary message from the controller in to a message struct
 func NewMessage(data []byte) (*Message, error) {
 	message := &Message{}
@@ -110,6 +124,9 @@ func NewMessage(data []byte) (*Message, error) {
 	if len(data) <= 1 {
 		return message, nil
 	}
+	if len(data) < 4 {
+		return nil, fmt.Errorf("Message is to short, got %d bytes: %x", len(data), data)
+	}
 	message.Length = data[1]
 	message.MessageType = data[2]
 	message.Function = ZWaveFunction(data[3])
@@ -117,12 +134,22 @@ func NewMessage(data []byte) (*Message, error) {
 	var err error
 	switch message.Function {
 	case ApplicationCommandHandler:
+		var payload []byte
+		payload, err = variablePayload(data)
+		if err != nil {
+			return nil, err
+		}
 		message.NodeID = data[5]
 
-		message.Data, err = NewApplicationCommandHandler(data[7 : 7+data[6]])
+		message.Data, err = NewApplicationCommandHandler(payload)
 	case DiscoveryNodes:
+		var payload []byte
+		payload, err = variablePayload(data)
+		if err != nil {
+			return nil, err
+		}
 
-		message.Data, err = NewDiscoverdNodes(data[7 : 7+data[6]])
+		message.Data, err = NewDiscoverdNodes(payload)
 	case GetNodeProtocolInfo:
 
 		message.Data, err = NewGetNodeProtocolInfo(data[4:])
-- 
2.43.0


From 217bf946a3b05e4f6294ae972f5456659a91ac43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:44 +0000
Subject: [PATCH 04/39] fix: compare a response only with the frame that was
 received

The response matching read outside of short frames, which crashed, and into
the checksum and whatever followed the frame in the buffer.
---
 connection.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/connection.go b/connection.go
index a522409..aea5b06 100644
--- a/connection.go
+++ b/connection.go
@@ -252,7 +252,7 @@ func (conn *Connection) Reader() error {
 			if l > 1 { // A message was received
 				conn.Lock()
 				for index, c := range conn.inFlight {
-					if !c.Match(incomming) {
+					if !c.Match(incomming[:l-1]) { // The frame without the checksum
 						logrus.Infof("Check match %#v", c)
 						continue
 					}
@@ -314,7 +314,7 @@ func (c *sendPackage) Match(incomming []byte) bool {
 
 	// SerialAPI specific
 	if !MatchByteAt(incomming, c.function, 3) && !(c.function == serialapi.SendData && MatchByteAt(incomming, serialapi.ApplicationCommandHandler, 3)) {
-		logrus.Warnf("Skipping pkg %s, function %x != %x", c.uuid, c.function, incomming[3])
+		logrus.Warnf("Skipping pkg %s, function is not %x: %x", c.uuid, c.function, incomming)
 		return false
 	}
 
@@ -324,15 +324,15 @@ func (c *sendPackage) Match(incomming []byte) bool {
 
 	// Z-wave specific
 	if !MatchByteAt(incomming, c.node, 5) {
-		logrus.Warnf("Skipping pkg %s, node %x != %x", c.uuid, c.node, incomming[5])
+		logrus.Warnf("Skipping pkg %s, node is not %x: %x", c.uuid, c.node, incomming)
 		return false
 	}
 	if !MatchByteAt(incomming, c.commandclass, 7) {
-		logrus.Warnf("Skipping pkg %s, commandclass %x is not %x", c.uuid, c.commandclass, incomming[7])
+		logrus.Warnf("Skipping pkg %s, commandclass is not %x: %x", c.uuid, c.commandclass, incomming)
 		return false
 	}
 	if !MatchByteAt(incomming, c.expectedReport, 8) {
-		logrus.Errorf("Skipping pkg %s, expectedReport %x is not %x", c.uuid, c.expectedReport, incomming[8])
+		logrus.Errorf("Skipping pkg %s, expectedReport is not %x: %x", c.uuid, c.expectedReport, incomming)
 		return false
 	}
 
@@ -358,7 +358,7 @@ func MatchByteAt(message []byte, b byte, position int) bool {
 		return true
 	}
 
-	if len(message) < position {
+	if len(message) <= position {
 		return false
 	}
 
-- 
2.43.0


From 9aa2b7c28d338315a86b599383d5834c7e8fdab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:45 +0000
Subject: [PATCH 05/39] fix: do not crash when the report that was waited for
 can not be decoded

A response that matches the request but has content that is unknown is
delivered as a nil message.
---
 connection.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/connection.go b/connection.go
index aea5b06..074426e 100644
--- a/connection.go
+++ b/connection.go
@@ -101,6 +101,10 @@ func (conn *Connection) WriteAndWaitForReport(msg interfaces.Encodable, t time.D
 	go func() {
 		defer close(returnChan)
 		for msg := range pkg.returnChan {
+			if msg == nil { // The response could not be decoded
+				continue
+			}
+
 			if f, ok := msg.Data.(*serialapi.FuncApplicationCommandHandler); ok {
 				returnChan <- f.Report
 				return
-- 
2.43.0


From aa92a8f199c651317d5d721ea5e0d0b0a99241e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:36 +0000
Subject: [PATCH 06/39] fix: always hand out the response channel of a request

pkg.returnChan is set to nil when the request is closed. A request that failed
before WriteWithTimeout returned gave the caller a nil channel, which blocks
forever.
---
 connection.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/connection.go b/connection.go
index 074426e..62f49cd 100644
--- a/connection.go
+++ b/connection.go
@@ -82,17 +82,19 @@ func (conn *Connection) Write(msg interfaces.Encodable) error {
 }
 func (conn *Connection) WriteWithTimeout(msg interfaces.Encodable, t time.Duration) (<-chan *serialapi.Message, error) {
 	pkg := newSendPackage(msg.Encode())
-	pkg.returnChan = make(chan *serialapi.Message)
+	responseChan := make(chan *serialapi.Message)
+	pkg.returnChan = responseChan
 	pkg.timeout = t
 
 	conn.send <- pkg
 
-	return pkg.returnChan, nil
+	return responseChan, nil
 }
 func (conn *Connection) WriteAndWaitForReport(msg interfaces.Encodable, t time.Duration, er byte) (<-chan reports.Report, error) {
 	pkg := newSendPackage(msg.Encode())
 	returnChan := make(chan reports.Report)
-	pkg.returnChan = make(chan *serialapi.Message)
+	responseChan := make(chan *serialapi.Message)
+	pkg.returnChan = responseChan
 	pkg.timeout = t
 	pkg.expectedReport = er
 
@@ -100,7 +102,7 @@ func (conn *Connection) WriteAndWaitForReport(msg interfaces.Encodable, t time.D
 
 	go func() {
 		defer close(returnChan)
-		for msg := range pkg.returnChan {
+		for msg := range responseChan {
 			if msg == nil { // The response could not be decoded
 				continue
 			}
-- 
2.43.0


From a7d83c15d7559639b392ba57ff16b37cef854b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:34 +0000
Subject: [PATCH 07/39] fix: handle each ACK, NAK and CAN once, for the command
 it answers

The reader walked the map of waiting requests without the lock while the
writer changed it, resent whatever command the loop ended at after a CAN,
and kept fire-and-forget commands in the map forever.
---
 connection.go | 89 ++++++++++++++++++++++++---------------------------
 1 file changed, 42 insertions(+), 47 deletions(-)

diff --git a/connection.go b/connection.go
index 62f49cd..026cd95 100644
--- a/connection.go
+++ b/connection.go
@@ -20,8 +20,7 @@ type Connection struct {
 	// Keep track of requests wating a response
 	inFlight    map[string]*sendPackage
 	send        chan *sendPackage
-	lastCommand string // Uuid of last sent command
-	lastResult  chan byte
+	lastCommand *sendPackage // Last sent command, until it gets its ACK, NAK or CAN
 
 	reportCallback func(byte, reports.Report)
 
@@ -31,7 +30,7 @@ type Connection struct {
 type sendPackage struct {
 	message []byte
 	uuid    string
-	result  byte // ACK, NAC, CAN
+	result  chan byte // ACK, NAC, CAN
 
 	function       byte
 	commandclass   byte
@@ -69,7 +68,6 @@ func NewConnection() *Connection {
 	z := &Connection{
 		inFlight:       make(map[string]*sendPackage),
 		send:           make(chan *sendPackage),
-		lastResult:     make(chan byte),
 		reportCallback: func(byte, reports.Report) {},
 	}
 	return z
@@ -155,33 +153,27 @@ func (conn *Connection) Writer() {
 		select {
 		case pkg := <-conn.send:
 			conn.Lock()
-			conn.lastCommand = ""
-
-			conn.inFlight[pkg.uuid] = pkg
-			conn.lastCommand = pkg.uuid
+			pkg.result = make(chan byte, 1)
+			conn.lastCommand = pkg
 
 			if pkg.timeout != 0 { // Only add the message to the inflight list if someone is waiting for an response
+				conn.inFlight[pkg.uuid] = pkg
 				go conn.timeoutWorker(pkg)
 			}
 
-			abort := make(chan struct{})
-			go func() {
-				select {
-				case result := <-conn.lastResult:
-					pkg.result = result
-				case <-time.After(time.Second):
-					logrus.Warn("Send timeout")
-					// SEND TIMEOUT
-				}
-				close(abort)
-			}()
-
 			logrus.Debugf("Write: %x", pkg.message)
 			conn.readWriteCloser.Write(pkg.message)
 			conn.Unlock()
 
-			<-abort
-			conn.lastCommand = ""
+			select {
+			case <-pkg.result:
+			case <-time.After(time.Second):
+				logrus.Warn("Send timeout")
+				// SEND TIMEOUT
+				conn.Lock()
+				conn.lastCommand = nil
+				conn.Unlock()
+			}
 		}
 	}
 }
@@ -217,30 +209,7 @@ func (conn *Connection) Reader() error {
 			}
 
 			if l == 1 {
-				for index, c := range conn.inFlight {
-					conn.RLock()
-					if c.uuid == conn.lastCommand {
-						select {
-						case conn.lastResult <- incomming[0]:
-						case <-time.After(time.Millisecond * 50):
-						}
-
-						if msg.IsNAK() {
-							logrus.Warnf("Command failed: %s - %#v", c.uuid, c)
-							delete(conn.inFlight, index)
-							c.Close()
-						}
-
-						if msg.IsCAN() {
-							go func() {
-								<-time.After(time.Millisecond * 100)
-								conn.send <- c
-							}()
-						}
-					}
-					conn.RUnlock()
-				}
-
+				conn.handleResult(msg, incomming[0])
 			}
 
 			// The message is not compleatly read yet, wait for some more data
@@ -259,7 +228,7 @@ func (conn *Connection) Reader() error {
 				conn.Lock()
 				for index, c := range conn.inFlight {
 					if !c.Match(incomming[:l-1]) { // The frame without the checksum
-						logrus.Infof("Check match %#v", c)
+						logrus.Infof("Check match %s", c.uuid)
 						continue
 					}
 
@@ -296,6 +265,32 @@ func (conn *Connection) Reader() error {
 
 }
 
+// handleResult handles an ACK, NAK or CAN, they are always about the last sent command
+func (conn *Connection) handleResult(msg *serialapi.Message, result byte) {
+	conn.Lock()
+	defer conn.Unlock()
+
+	c := conn.lastCommand
+	if c == nil {
+		return
+	}
+	conn.lastCommand = nil
+	c.result <- result
+
+	if msg.IsNAK() {
+		logrus.Warnf("Command failed: %s - %x", c.uuid, c.message)
+		delete(conn.inFlight, c.uuid)
+		c.Close()
+	}
+
+	if msg.IsCAN() {
+		go func() {
+			<-time.After(time.Millisecond * 100)
+			conn.send <- c
+		}()
+	}
+}
+
 func newSendPackage(data []byte) *sendPackage {
 	pkg := &sendPackage{
 		message: serialapi.CompileMessage(data),
-- 
2.43.0


From ae65883ed617c23b448b95bb600848abefc2de36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:48 +0000
Subject: [PATCH 08/39] fix: keep a single writer and a truthful Connected over
 reconnects

Every reconnect started one more writer, so that commands were sent without
waiting for the previous ones result. A failed reopen replaced the port with
nil, which crashed the next write, and a port that was lost within 200 ms was
marked as connected for good.
---
 connection.go | 39 +++++++++++++++++++++++++++++++--------
 1 file changed, 31 insertions(+), 8 deletions(-)

diff --git a/connection.go b/connection.go
index 026cd95..24ee115 100644
--- a/connection.go
+++ b/connection.go
@@ -24,6 +24,8 @@ type Connection struct {
 
 	reportCallback func(byte, reports.Report)
 
+	startWriter sync.Once
+
 	sync.RWMutex
 }
 
@@ -118,14 +120,10 @@ func (conn *Connection) WriteAndWaitForReport(msg interfaces.Encodable, t time.D
 }
 
 func (conn *Connection) Connect(connectChan chan error) (err error) {
-	defer func() {
-		logrus.Error("Disonnected")
-		conn.Connected = false
-	}()
-
-	conn.readWriteCloser, err = conn.portOpener.Open()
+	port, err := conn.portOpener.Open()
 
 	if err != nil {
+		logrus.Error("Disonnected")
 		select {
 		case connectChan <- err:
 		default:
@@ -133,17 +131,42 @@ func (conn *Connection) Connect(connectChan chan error) (err error) {
 		return
 	}
 
+	conn.Lock()
+	conn.readWriteCloser = port
+	conn.Unlock()
+
+	disconnected := make(chan struct{})
+	defer func() {
+		logrus.Error("Disonnected")
+		conn.Lock()
+		close(disconnected)
+		conn.Connected = false
+		conn.Unlock()
+	}()
+
 	go func() {
 		<-time.After(time.Millisecond * 200)
+
+		conn.Lock()
+		select {
+		case <-disconnected: // The port was lost before it was up
+			conn.Unlock()
+			return
+		default:
+		}
 		logrus.Debug("Connected")
+		conn.Connected = true
+		conn.Unlock()
+
 		select {
 		case connectChan <- nil:
 		default:
 		}
-		conn.Connected = true
 	}()
 
-	go conn.Writer()
+	conn.startWriter.Do(func() { // The writer is kept over reconnects
+		go conn.Writer()
+	})
 	return conn.Reader()
 }
 
-- 
2.43.0


From 9b19d9e79a7b03631541439cc7990d217fa43026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:50 +0000
Subject: [PATCH 09/39] fix: deliver a protocol info response to one request
 only

The response has no node id in it and was delivered to every waiting protocol
info request, so nodes that were identified at the same time got the protocol
info of each other.
---
 connection.go | 44 +++++++++++++++++++++++++++++++++++++-------
 1 file changed, 37 insertions(+), 7 deletions(-)

diff --git a/connection.go b/connection.go
index 24ee115..c07bf52 100644
--- a/connection.go
+++ b/connection.go
@@ -21,6 +21,7 @@ type Connection struct {
 	inFlight    map[string]*sendPackage
 	send        chan *sendPackage
 	lastCommand *sendPackage // Last sent command, until it gets its ACK, NAK or CAN
+	sequence    uint64       // Number of sent commands
 
 	reportCallback func(byte, reports.Report)
 
@@ -39,6 +40,9 @@ type sendPackage struct {
 	expectedReport byte
 	node           byte
 
+	sequence uint64 // The order of sending, set when the message is sent
+	acked    bool
+
 	timeout time.Duration
 
 	returnChan chan *serialapi.Message
@@ -178,6 +182,8 @@ func (conn *Connection) Writer() {
 			conn.Lock()
 			pkg.result = make(chan byte, 1)
 			conn.lastCommand = pkg
+			conn.sequence++
+			pkg.sequence = conn.sequence
 
 			if pkg.timeout != 0 { // Only add the message to the inflight list if someone is waiting for an response
 				conn.inFlight[pkg.uuid] = pkg
@@ -249,12 +255,7 @@ func (conn *Connection) Reader() error {
 
 			if l > 1 { // A message was received
 				conn.Lock()
-				for index, c := range conn.inFlight {
-					if !c.Match(incomming[:l-1]) { // The frame without the checksum
-						logrus.Infof("Check match %s", c.uuid)
-						continue
-					}
-
+				for _, c := range conn.requestsAnsweredBy(incomming[:l-1]) { // The frame without the checksum
 					if c.IsOpen() {
 						select {
 						case c.returnChan <- msg: // Try to deliver message
@@ -264,7 +265,7 @@ func (conn *Connection) Reader() error {
 
 						c.Close()
 					}
-					delete(conn.inFlight, index)
+					delete(conn.inFlight, c.uuid)
 				}
 				conn.Unlock()
 			}
@@ -288,6 +289,34 @@ func (conn *Connection) Reader() error {
 
 }
 
+// requestsAnsweredBy returns the waiting requests that a received frame is the response to
+func (conn *Connection) requestsAnsweredBy(frame []byte) []*sendPackage {
+	var answered []*sendPackage
+	var first *sendPackage
+
+	for _, c := range conn.inFlight {
+		if !c.Match(frame) {
+			logrus.Infof("Check match %s", c.uuid)
+			continue
+		}
+
+		// There is no node id in the protocol info response, the stick responds in the order of the requests it has accepted
+		if c.function == serialapi.GetNodeProtocolInfo {
+			if first == nil || (c.acked && !first.acked) || (c.acked == first.acked && c.sequence < first.sequence) {
+				first = c
+			}
+			continue
+		}
+
+		answered = append(answered, c)
+	}
+
+	if first != nil {
+		answered = append(answered, first)
+	}
+	return answered
+}
+
 // handleResult handles an ACK, NAK or CAN, they are always about the last sent command
 func (conn *Connection) handleResult(msg *serialapi.Message, result byte) {
 	conn.Lock()
@@ -298,6 +327,7 @@ func (conn *Connection) handleResult(msg *serialapi.Message, result byte) {
 		return
 	}
 	conn.lastCommand = nil
+	c.acked = msg.IsACK()
 	c.result <- result
 
 	if msg.IsNAK() {
-- 
2.43.0


From c89d5fc253b71da015b3ddd0b7550fdd3c040c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:18 +0000
Subject: [PATCH 10/39] fix: process reports in the order they were received

Every report was processed in its own goroutine, so of two reports in quick
succession the older one could end up as the state of the node. The alarm
reset must not hold up the reports after it.
---
 connection.go | 42 +++++++++++++++++++++++++++++++++++++++++-
 nodes/node.go | 20 ++++++++++++--------
 2 files changed, 53 insertions(+), 9 deletions(-)

diff --git a/connection.go b/connection.go
index c07bf52..383c63c 100644
--- a/connection.go
+++ b/connection.go
@@ -24,6 +24,7 @@ type Connection struct {
 	sequence    uint64       // Number of sent commands
 
 	reportCallback func(byte, reports.Report)
+	received       reportQueue
 
 	startWriter sync.Once
 
@@ -49,6 +50,45 @@ type sendPackage struct {
 	sync.RWMutex
 }
 
+// reportQueue delivers reports one at a time, in the order they were received, without blocking the reader
+type reportQueue struct {
+	reports    []nodeReport
+	delivering bool
+	sync.Mutex
+}
+
+type nodeReport struct {
+	node   byte
+	report reports.Report
+}
+
+func (q *reportQueue) deliver(callback func(byte, reports.Report), node byte, report reports.Report) {
+	q.Lock()
+	defer q.Unlock()
+
+	q.reports = append(q.reports, nodeReport{node, report})
+	if q.delivering {
+		return
+	}
+	q.delivering = true
+
+	go func() {
+		for {
+			q.Lock()
+			if len(q.reports) == 0 {
+				q.delivering = false
+				q.Unlock()
+				return
+			}
+			next := q.reports[0]
+			q.reports = q.reports[1:]
+			q.Unlock()
+
+			callback(next.node, next.report)
+		}
+	}()
+}
+
 func (sp *sendPackage) Close() {
 	sp.RLock()
 	if sp.returnChan == nil {
@@ -273,7 +313,7 @@ func (conn *Connection) Reader() error {
 			if msg != nil {
 				if cmd, ok := msg.Data.(*serialapi.FuncApplicationCommandHandler); ok {
 					// Deliver the update to the parent
-					go conn.reportCallback(msg.NodeID, cmd.Report)
+					conn.received.deliver(conn.reportCallback, msg.NodeID, cmd.Report)
 				}
 			}
 
diff --git a/nodes/node.go b/nodes/node.go
index 5771623..e79da3e 100644
--- a/nodes/node.go
+++ b/nodes/node.go
@@ -95,15 +95,8 @@ func (n *Node) ProcessEvent(event reports.Report) {
 			n.pushEvent(events.NodeUpdated{
 				Address: n.Id,
 			})
-			n.Unlock()
 
-			<-time.After(time.Second)
-			n.Lock()
-			n.StateBool["alarm"] = false
-			n.StateFloat["alarm"] = 0
-			n.pushEvent(events.NodeUpdated{
-				Address: n.Id,
-			})
+			time.AfterFunc(time.Second, n.resetAlarm)
 		}
 	case *reports.WakeUp:
 		logrus.Error("NODE RECEIVED WAKEUP")
@@ -144,6 +137,17 @@ func (n *Node) ProcessEvent(event reports.Report) {
 
 }
 
+func (n *Node) resetAlarm() {
+	n.Lock()
+	defer n.Unlock()
+
+	n.StateBool["alarm"] = false
+	n.StateFloat["alarm"] = 0
+	n.pushEvent(events.NodeUpdated{
+		Address: n.Id,
+	})
+}
+
 func (n *Node) GetID() int {
 	n.RLock()
 	defer n.RUnlock()
-- 
2.43.0


From c3d0adc916acf87ccb76312609e43c58974d0bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:50 +0000
Subject: [PATCH 11/39] fix: do not take an unknown value as the state of a
 switch

A report of the value 'unknown' (0xFE) turned a multilevel switch on at level
100, and a binary switch off.
---
 nodes/node.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/nodes/node.go b/nodes/node.go
index e79da3e..4057b90 100644
--- a/nodes/node.go
+++ b/nodes/node.go
@@ -105,6 +105,9 @@ func (n *Node) ProcessEvent(event reports.Report) {
 			n.awake = nil
 		}
 	case *reports.SwitchBinaryV1:
+		if !data.Valid { // The state is unknown
+			return
+		}
 		n.StateBool["on"] = data.CurrentValue
 		n.pushEvent(events.NodeUpdated{
 			Address: n.Id,
@@ -115,12 +118,18 @@ func (n *Node) ProcessEvent(event reports.Report) {
 			Address: n.Id,
 		})
 	case *reports.SwitchMultilevelV1:
+		if !data.Valid { // The state is unknown
+			return
+		}
 		n.StateBool["on"] = data.CurrentValue > 0
 		n.StateFloat["level"] = float64(data.CurrentValue)
 		n.pushEvent(events.NodeUpdated{
 			Address: n.Id,
 		})
 	case *reports.SwitchMultilevelV4:
+		if !data.Valid { // The state is unknown
+			return
+		}
 		n.StateBool["on"] = data.CurrentValue > 0
 		n.StateFloat["level"] = float64(data.CurrentValue)
 		n.pushEvent(events.NodeUpdated{
-- 
2.43.0


From ef4930d1b60811a911fcb21af9aa46aad5638d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:01 +0000
Subject: [PATCH 12/39] fix: find endpoints by their id and create all of them

The last endpoint of a node was never created, and Endpoint() returned the
endpoint after the requested one or crashed when there was none.
---
 nodes/endpoints.go         | 11 ++++++++---
 nodes/request_endpoints.go |  2 +-
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/nodes/endpoints.go b/nodes/endpoints.go
index 19ef2a0..fb98ac6 100644
--- a/nodes/endpoints.go
+++ b/nodes/endpoints.go
@@ -23,11 +23,16 @@ func (n *Node) Endpoint(id int) *Endpoint {
 		return nil
 	}
 
-	if id > len(n.Endpoints) {
-		return nil
+	n.RLock()
+	defer n.RUnlock()
+
+	for _, e := range n.Endpoints {
+		if e.Id == id {
+			return e
+		}
 	}
 
-	return n.Endpoints[id]
+	return nil
 }
 
 func (e *Endpoint) Write(msg interfaces.Encodable) {
diff --git a/nodes/request_endpoints.go b/nodes/request_endpoints.go
index da20149..d46958a 100644
--- a/nodes/request_endpoints.go
+++ b/nodes/request_endpoints.go
@@ -51,7 +51,7 @@ func (n *Node) RequestEndpoints() error {
 			logrus.Debug(cmd.String())
 			n.Lock()
 			n.Endpoints = make([]*Endpoint, 0)
-			for i := 1; i < cmd.Endpoints; i++ {
+			for i := 1; i <= cmd.Endpoints; i++ {
 				n.Endpoints = append(n.Endpoints, &Endpoint{
 					Id:             i,
 					CommandClasses: n.CommandClasses,
-- 
2.43.0


From 4757e5ddeb2f076bc118dfbf966f06820b75cb6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:32 +0000
Subject: [PATCH 13/39] fix: keep the command classes of the device through the
 identification

Every step after the manufacturer request replaced the command classes with
the mandatory ones, so a node lost what the database knows about it.
---
 nodes/node.go | 34 +++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/nodes/node.go b/nodes/node.go
index 4057b90..375d2bb 100644
--- a/nodes/node.go
+++ b/nodes/node.go
@@ -185,11 +185,8 @@ func (n *Node) Identify() {
 			n.Unlock()
 		}
 
-		// set basic commandClasses
-		classes := database.GetMandatoryCommandClasses(n.ProtocolInfo().Generic, n.ProtocolInfo().Specific)
-
 		n.Lock()
-		n.CommandClasses = classes
+		n.updateCommandClasses()
 		n.Unlock()
 
 		//<-self.Connection.SendRaw([]byte{serialapi.GetNodeProtocolInfo, byte(index + 1)}) // Request node information
@@ -207,15 +204,8 @@ func (n *Node) Identify() {
 
 			n.Lock()
 			n.ManufacurerSpecific = resp
-			dev := database.New(n.ManufacurerSpecific.Manufacturer, n.ManufacurerSpecific.Type, n.ManufacurerSpecific.ID)
-			if dev != nil {
-				n.Brand = dev.Brand
-				n.Product = dev.Product
-				n.Description = dev.Description
-				for _, v := range dev.CommandClasses {
-					n.CommandClasses = append(n.CommandClasses, v)
-				}
-			}
+			n.updateCommandClasses()
+
 			n.pushEvent(events.NodeUpdated{
 				Address: n.Id,
 			})
@@ -314,6 +304,24 @@ func (n *Node) Identify() {
 	}
 }
 
+// updateCommandClasses sets the basic commandClasses, and the ones of the device if it is known
+func (n *Node) updateCommandClasses() {
+	var classes []*database.CommandClass
+	classes = append(classes, database.GetMandatoryCommandClasses(n.protocolInfo.Generic, n.protocolInfo.Specific)...)
+
+	if n.ManufacurerSpecific != nil {
+		dev := database.New(n.ManufacurerSpecific.Manufacturer, n.ManufacurerSpecific.Type, n.ManufacurerSpecific.ID)
+		if dev != nil {
+			n.Brand = dev.Brand
+			n.Product = dev.Product
+			n.Description = dev.Description
+			classes = append(classes, dev.CommandClasses...)
+		}
+	}
+
+	n.CommandClasses = classes
+}
+
 func (n *Node) pushEvent(event interface{}) {
 	n.pushEventFunc(event)
 }
-- 
2.43.0


From 251642dec26ce610fd6519040ae69e7fd28b25cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:03 +0000
Subject: [PATCH 14/39] fix: load any configuration file without crashing

A file without nodes, with a null node, endpoint or command class, or a node
without its states, crashed when it was loaded or at the first report.
---
 controller.go |  5 ++++-
 nodes/list.go |  4 ++++
 nodes/node.go | 22 ++++++++++++++++++++++
 3 files changed, 30 insertions(+), 1 deletion(-)

diff --git a/controller.go b/controller.go
index 841c7c3..30ae699 100644
--- a/controller.go
+++ b/controller.go
@@ -181,9 +181,12 @@ func (c *Controller) loadConfigurationFromFile() (*Controller, error) {
 
 	controller := &Controller{}
 	jsonParser := json.NewDecoder(configFile)
-	if err = jsonParser.Decode(&controller); err != nil {
+	if err = jsonParser.Decode(controller); err != nil {
 		return nil, err
 	}
+	if controller.Nodes == nil { // There are no nodes in the file
+		controller.Nodes = nodes.NewList()
+	}
 
 	return controller, nil
 }
diff --git a/nodes/list.go b/nodes/list.go
index 297f673..fa2d2b1 100644
--- a/nodes/list.go
+++ b/nodes/list.go
@@ -85,6 +85,10 @@ func (l *List) UnmarshalJSON(data []byte) error {
 	}
 
 	for _, v := range s {
+		if v == nil {
+			continue
+		}
+		v.repair()
 		l.Add(v)
 	}
 
diff --git a/nodes/node.go b/nodes/node.go
index 375d2bb..d844cbb 100644
--- a/nodes/node.go
+++ b/nodes/node.go
@@ -27,6 +27,28 @@ func New(address int) *Node {
 	return n
 }
 
+// repair makes a node that was loaded from a configuration file usable, whatever was missing in the file
+func (n *Node) repair() {
+	if n.StateBool == nil {
+		n.StateBool = make(map[string]bool)
+	}
+	if n.StateFloat == nil {
+		n.StateFloat = make(map[string]float64)
+	}
+	n.pushEventFunc = func(interface{}) {}
+
+	for k := len(n.CommandClasses) - 1; k >= 0; k-- {
+		if n.CommandClasses[k] == nil {
+			n.CommandClasses = append(n.CommandClasses[:k], n.CommandClasses[k+1:]...)
+		}
+	}
+	for k := len(n.Endpoints) - 1; k >= 0; k-- {
+		if n.Endpoints[k] == nil {
+			n.Endpoints = append(n.Endpoints[:k], n.Endpoints[k+1:]...)
+		}
+	}
+}
+
 type Node struct {
 	Id      int  `json:"id"`
 	IsAwake bool `json:"is_awake"`
-- 
2.43.0


From 2866c69eb49b42e9c50743d7e398720e7ad65f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:00 +0000
Subject: [PATCH 15/39] fix: lock the node list and the nodes where they are
 shared

The list methods copied the lock they were to hold, All() handed out the map
itself, a node was saved, asked for its classes and waited for without its
lock, and it could receive reports before it was set up. Saving while a report
arrived crashed with a concurrent map access.
---
 controller.go |  2 +-
 nodes/list.go | 19 +++++++------------
 nodes/node.go | 17 +++++++++++++++++
 3 files changed, 25 insertions(+), 13 deletions(-)

diff --git a/controller.go b/controller.go
index 30ae699..d0bdbe8 100644
--- a/controller.go
+++ b/controller.go
@@ -79,12 +79,12 @@ func (c *Controller) initNode(id int, node *nodes.Node) *nodes.Node {
 	}
 
 	node = nodes.New(id)
+	node.Setup(c.Connection, c.pushEvent) // Before the node can be reached by anyone else
 	c.Nodes.Add(node)
 	c.pushEvent(events.NodeDiscoverd{
 		Address: node.Id,
 	})
 
-	node.Setup(c.Connection, c.pushEvent)
 	return node
 }
 
diff --git a/nodes/list.go b/nodes/list.go
index fa2d2b1..ab82363 100644
--- a/nodes/list.go
+++ b/nodes/list.go
@@ -37,27 +37,22 @@ func (l *List) Add(node *Node) {
 	l.Unlock()
 }
 
-func (l List) All() map[int]*Node {
+func (l *List) All() map[int]*Node {
 	l.RLock()
 	defer l.RUnlock()
 
-	for _, v := range l.nodes {
-		v.RLock()
-		defer v.RUnlock()
+	all := make(map[int]*Node, len(l.nodes))
+	for k, v := range l.nodes {
+		all[k] = v
 	}
 
-	return l.nodes
+	return all
 }
 
-func (l List) Get(id int) *Node {
+func (l *List) Get(id int) *Node {
 	l.RLock()
 	defer l.RUnlock()
 
-	if l.nodes[id] != nil {
-		l.nodes[id].RLock()
-		defer l.nodes[id].RUnlock()
-	}
-
 	return l.nodes[id]
 }
 
@@ -67,7 +62,7 @@ func (l List) Get(id int) *Node {
 //l.Unlock()
 //}
 
-func (l List) MarshalJSON() ([]byte, error) {
+func (l *List) MarshalJSON() ([]byte, error) {
 	s := make(map[string]*Node)
 
 	for k, v := range l.All() {
diff --git a/nodes/node.go b/nodes/node.go
index d844cbb..4e61514 100644
--- a/nodes/node.go
+++ b/nodes/node.go
@@ -1,6 +1,7 @@
 package nodes
 
 import (
+	"encoding/json"
 	"strings"
 	"sync"
 	"time"
@@ -84,11 +85,27 @@ type Node struct {
 //type ProcessEventFunc func(commands.Report)
 
 func (n *Node) Setup(connection interfaces.Writer, pushEventFunc func(interface{})) {
+	n.Lock()
+	defer n.Unlock()
+
 	n.connection = connection
 	n.pushEventFunc = pushEventFunc
 }
 
+// MarshalJSON makes sure that the node is not changed while it is encoded
+func (n *Node) MarshalJSON() ([]byte, error) {
+	type node Node
+
+	n.RLock()
+	defer n.RUnlock()
+
+	return json.Marshal((*node)(n))
+}
+
 func (n *Node) isAwake() chan struct{} {
+	n.Lock()
+	defer n.Unlock()
+
 	if n.IsAwake {
 		c := make(chan struct{})
 		close(c)
-- 
2.43.0


From aa8c66dc2ec938a4b3ef9e778baebf9f3f7932d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:01 +0000
Subject: [PATCH 16/39] fix: report a failed save and keep the old
 configuration then

The file was truncated before the new content was known to be writable, and
every error was swallowed, so a full disk or a value that json can not encode
left an empty configuration and a nil error.
---
 controller.go | 33 ++++++++++++++++-----------------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/controller.go b/controller.go
index d0bdbe8..505aa83 100644
--- a/controller.go
+++ b/controller.go
@@ -1,11 +1,10 @@
 package gozwave
 
 import (
-	"bytes"
 	"encoding/json"
 	"fmt"
+	"io/ioutil"
 	"os"
-	"reflect"
 	"sync"
 	"time"
 
@@ -23,6 +22,7 @@ type Controller struct {
 
 	filename        string
 	triggerFileSave chan struct{}
+	saving          sync.Mutex
 
 	sync.RWMutex
 }
@@ -132,29 +132,28 @@ func (c *Controller) DeliverReportToNode(node byte, report reports.Report) {
 }
 
 func (c *Controller) SaveConfigurationToFile() error {
-	controller, err := c.loadConfigurationFromFile()
-	if err == nil {
-		if reflect.DeepEqual(c, controller) {
-			return nil
-		}
-	}
+	c.saving.Lock()
+	defer c.saving.Unlock()
 
-	configFile, err := os.Create(c.filename)
+	out, err := json.MarshalIndent(c, "", "\t")
 	if err != nil {
-		logrus.Error("creating config file", err.Error())
+		logrus.Error("error marshal json", err)
+		return err
 	}
-	defer configFile.Close()
 
+	// Write to a new file first, the old configuration must not be lost if it fails
 	logrus.Info("Save config: ", c.filename)
-	var out bytes.Buffer
-	b, err := json.MarshalIndent(c, "", "\t")
+	tmp := c.filename + ".tmp"
+	err = ioutil.WriteFile(tmp, out, 0666)
+	if err == nil {
+		err = os.Rename(tmp, c.filename)
+	}
 	if err != nil {
-		logrus.Error("error marshal json", err)
+		logrus.Error("creating config file", err.Error())
+		os.Remove(tmp)
 	}
-	json.Indent(&out, b, "", "\t")
-	out.WriteTo(configFile)
 
-	return nil
+	return err
 }
 func (c *Controller) LoadConfigurationFromFile() error {
 	controller, err := c.loadConfigurationFromFile()
-- 
2.43.0


From 6d9201d056542ada5d8fdbd240dbd12cec826dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:42 +0000
Subject: [PATCH 17/39] fix: record each read and write once, in order and as
 it was

The rows were logged from unordered goroutines with a buffer the caller had
started to reuse, and a reopened port got a second encoder on the same log,
which can not be decoded.
---
 serialrecorder/serialrecorder.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/serialrecorder/serialrecorder.go b/serialrecorder/serialrecorder.go
index 92453b1..cdc6a35 100644
--- a/serialrecorder/serialrecorder.go
+++ b/serialrecorder/serialrecorder.go
@@ -5,6 +5,7 @@ import (
 	"io"
 	"log"
 	"os"
+	"sync"
 	"time"
 
 	"github.com/tarm/serial"
@@ -17,6 +18,7 @@ type serialRecorder struct {
 	Logger io.Writer
 
 	writeBuffer chan *Row
+	startWriter sync.Once
 }
 
 // Row logs one serial read or write
@@ -38,13 +40,13 @@ func New(port string, baud int) *serialRecorder {
 
 func (sr *serialRecorder) Read(p []byte) (n int, err error) {
 	n, err = sr.serial.Read(p)
-	go sr.writeToLog(DirectionRead, p[:n])
+	sr.writeToLog(DirectionRead, p[:n])
 	return
 }
 
 func (sr *serialRecorder) Write(p []byte) (n int, err error) {
 	n, err = sr.serial.Write(p)
-	go sr.writeToLog(DirectionWrite, p[:n])
+	sr.writeToLog(DirectionWrite, p[:n])
 	return
 }
 
@@ -52,7 +54,7 @@ func (sr *serialRecorder) writeToLog(d Direction, data []byte) {
 	sr.writeBuffer <- &Row{
 		Timestamp: time.Now(),
 		Direction: d,
-		Data:      data,
+		Data:      append([]byte(nil), data...), // The caller can reuse its buffer
 	}
 }
 
@@ -71,7 +73,9 @@ func (sr *serialRecorder) Close() error {
 	return sr.serial.Close()
 }
 func (sr *serialRecorder) Open() (io.ReadWriteCloser, error) {
-	go sr.logWriter()
+	sr.startWriter.Do(func() { // There is one log, also if the port is opened again
+		go sr.logWriter()
+	})
 
 	var err error
 	sr.serial, err = serial.OpenPort(&serial.Config{Name: sr.port, Baud: sr.baud})
-- 
2.43.0


From d212778d11a2dd4d86046a2812fe0d3ac65f46b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:43 +0000
Subject: [PATCH 18/39] fix: print the last rows of a recording

---
 .../serialrecordingtohex.go                   | 23 ++++++++++++++-----
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/cmd/serialrecordingtohex/serialrecordingtohex.go b/cmd/serialrecordingtohex/serialrecordingtohex.go
index a545385..9424edf 100644
--- a/cmd/serialrecordingtohex/serialrecordingtohex.go
+++ b/cmd/serialrecordingtohex/serialrecordingtohex.go
@@ -76,6 +76,13 @@ func main() {
 		}
 	}
 
+	// The last rows are still in the combiners
+	for _, l := range []logRowCombiner{reads, writes} {
+		if len(l.buf) > 0 {
+			combinedRows = append(combinedRows, l.combined())
+		}
+	}
+
 	// Sort the rows and print them out
 	sort.Sort(combinedRows)
 	for _, v := range combinedRows {
@@ -128,14 +135,18 @@ func (l *logRowCombiner) combine(r serialrecorder.Row) *row {
 		return nil
 	}
 
-	combinedRow := &row{
-		Timestamp: l.prev.Timestamp,
-		Direction: l.prev.Direction,
-		Data:      l.buf,
-	}
+	combinedRow := l.combined()
 
 	l.buf = r.Data
 	l.prev = r
 
-	return combinedRow
+	return &combinedRow
+}
+
+func (l *logRowCombiner) combined() row {
+	return row{
+		Timestamp: l.prev.Timestamp,
+		Direction: l.prev.Direction,
+		Data:      l.buf,
+	}
 }
-- 
2.43.0


From 63a663e6c21b0adb3f27ccf471543514525b1203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:43 +0000
Subject: [PATCH 19/39] fix: generate a device database that compiles for every
 input

Ids that differ only in case made a duplicate case, and NUL and BOM are not
allowed in source code.
---
 generators/database/database.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/generators/database/database.go b/generators/database/database.go
index 9abc242..82651be 100644
--- a/generators/database/database.go
+++ b/generators/database/database.go
@@ -126,6 +126,8 @@ var escaper = strings.NewReplacer(
 	"\"", "\\\"", // quote
 	"\r", "\\r",
 	"\n", "\\n",
+	"\x00", "\\x00", // not allowed in go source
+	"\ufeff", "\\ufeff",
 )
 
 var funcMap = template.FuncMap{
@@ -299,7 +301,7 @@ func main() {
 
 		refs := []deviceRef{}
 		for _, ref := range dev.DeviceRefs {
-			iden := dev.ManufacturerID + "_" + ref.ProductType + "_" + ref.ProductID
+			iden := strings.ToLower(dev.ManufacturerID + "_" + ref.ProductType + "_" + ref.ProductID) // New compares in lower case
 			if idens[iden] {
 				// FIXME: How do we handle duplicates?
 				log.Printf("warning: %s duplicate iden %s\n", iden, file.Name())
-- 
2.43.0


From a86d1e15ae6c92bb4e1085159d1bc01455be512f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:55 +0000
Subject: [PATCH 20/39] fix: generate the last block of the mandatory command
 classes

It was dropped when no empty line followed it.
---
 generators/commandclasses/commandclasses.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/generators/commandclasses/commandclasses.go b/generators/commandclasses/commandclasses.go
index cbd84fb..0c4ca09 100644
--- a/generators/commandclasses/commandclasses.go
+++ b/generators/commandclasses/commandclasses.go
@@ -46,14 +46,17 @@ func main() {
 	scanner := bufio.NewScanner(file)
 	defs := [][]string{}
 	classes := []string{}
+	endOfBlock := func() {
+		for _, def := range defs {
+			data.CommandClasses[def[0]+"|"+def[1]] = classes
+		}
+		defs = [][]string{}
+		classes = []string{}
+	}
 	for scanner.Scan() {
 		text := strings.TrimSpace(scanner.Text())
 		if text == "" {
-			for _, def := range defs {
-				data.CommandClasses[def[0]+"|"+def[1]] = classes
-			}
-			defs = [][]string{}
-			classes = []string{}
+			endOfBlock()
 			continue
 		}
 
@@ -81,6 +84,8 @@ func main() {
 		}
 	}
 
+	endOfBlock() // There might be no empty line after the last one
+
 	if err := scanner.Err(); err != nil {
 		log.Fatal(err)
 	}
-- 
2.43.0


From 4ecbbe52742f9117cb07503312d429e503347ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:07 +0000
Subject: [PATCH 21/39] fix: do not wait for the answer of a request that has
 timed out

A request that was cancelled and timed out before it was sent again could take
the answer of another one.
---
 connection.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/connection.go b/connection.go
index 383c63c..5433d21 100644
--- a/connection.go
+++ b/connection.go
@@ -225,7 +225,7 @@ func (conn *Connection) Writer() {
 			conn.sequence++
 			pkg.sequence = conn.sequence
 
-			if pkg.timeout != 0 { // Only add the message to the inflight list if someone is waiting for an response
+			if pkg.timeout != 0 && pkg.IsOpen() { // Only add the message to the inflight list if someone is waiting for an response
 				conn.inFlight[pkg.uuid] = pkg
 				go conn.timeoutWorker(pkg)
 			}
-- 
2.43.0


From aad985654a9e64e82a382e1c5e8545b2b8304474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:08 +0000
Subject: [PATCH 22/39] fix: a transmission status is not the answer of a node

The status of a transmission could end a request to a node without its answer,
if its bytes happened to be those of the node and the command class.
---
 connection.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/connection.go b/connection.go
index 5433d21..4b664ea 100644
--- a/connection.go
+++ b/connection.go
@@ -407,8 +407,12 @@ func (c *sendPackage) Match(incomming []byte) bool {
 	//if len(incomming) > 3 && c.function != 0 && c.function != incomming[3] && !(c.function == serialapi.SendData && incomming[3] == 0x04) {
 
 	// SerialAPI specific
-	if !MatchByteAt(incomming, c.function, 3) && !(c.function == serialapi.SendData && MatchByteAt(incomming, serialapi.ApplicationCommandHandler, 3)) {
-		logrus.Warnf("Skipping pkg %s, function is not %x: %x", c.uuid, c.function, incomming)
+	function := c.function
+	if function == serialapi.SendData { // The answer of the node, not the status of the transmission
+		function = byte(serialapi.ApplicationCommandHandler)
+	}
+	if !MatchByteAt(incomming, function, 3) {
+		logrus.Warnf("Skipping pkg %s, function is not %x: %x", c.uuid, function, incomming)
 		return false
 	}
 
-- 
2.43.0


From 3b55001479b4de793c05e20dd83fd26996884a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:21 +0000
Subject: [PATCH 23/39] fix: look for a command class under the lock of the
 node

Switching a node while it was identified raced with the update of its command
classes.
---
 nodes/node.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nodes/node.go b/nodes/node.go
index 4e61514..9dc95ab 100644
--- a/nodes/node.go
+++ b/nodes/node.go
@@ -366,6 +366,9 @@ func (n *Node) pushEvent(event interface{}) {
 }
 
 func (n *Node) HasCommand(c commands.ZWaveCommand) bool {
+	n.RLock()
+	defer n.RUnlock()
+
 	if n.CommandClasses == nil {
 		return false
 	}
-- 
2.43.0


From 3bb78f8233d1b51379bf566b07b29902613cb58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:07 +0000
Subject: [PATCH 24/39] fix: multichannel association is not the association
 command class

---
 database/mandatory.go                       | 2 +-
 generators/commandclasses/commandclasses.go | 9 +++++----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/database/mandatory.go b/database/mandatory.go
index ae0e4d6..3a2d327 100644
--- a/database/mandatory.go
+++ b/database/mandatory.go
@@ -650,7 +650,7 @@ var definitions = map[Definition][]*CommandClass{
 			ID: 0x60,
 		},
 		&CommandClass{
-			ID: 0x85,
+			ID: 0x8e,
 		},
 		&CommandClass{
 			ID: 0x73,
diff --git a/generators/commandclasses/commandclasses.go b/generators/commandclasses/commandclasses.go
index 0c4ca09..8884d41 100644
--- a/generators/commandclasses/commandclasses.go
+++ b/generators/commandclasses/commandclasses.go
@@ -140,6 +140,11 @@ func StringToByte(s string) byte {
 		return commands.AssociationGRPInfo
 	}
 
+	//- Multichannel Association (version 3 or newer)
+	if strings.Contains(s, "Multichannel Association") {
+		return commands.MultiInstanceAssociation
+	}
+
 	//- Association (version 2 or newer)
 	if strings.Contains(s, "Association") {
 		return commands.Association
@@ -175,10 +180,6 @@ func StringToByte(s string) byte {
 	if strings.Contains(s, "Meter") {
 		return commands.Meter
 	}
-	//- Multichannel Association (version 3 or newer)
-	if strings.Contains(s, "Multichannel Association") {
-		return commands.MultiInstanceAssociation
-	}
 
 	//- Multi Channel (version 4 or newer)
 	if strings.Contains(s, "Multi Channel") {
-- 
2.43.0


From 25226c75cce6fc5072907f02865e14be01124807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:47 +0000
Subject: [PATCH 25/39] fix: record concurrent writes in the order they were
 written

---
 serialrecorder/serialrecorder.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/serialrecorder/serialrecorder.go b/serialrecorder/serialrecorder.go
index cdc6a35..564d695 100644
--- a/serialrecorder/serialrecorder.go
+++ b/serialrecorder/serialrecorder.go
@@ -17,6 +17,7 @@ type serialRecorder struct {
 	baud   int
 	Logger io.Writer
 
+	writeMutex  sync.Mutex
 	writeBuffer chan *Row
 	startWriter sync.Once
 }
@@ -45,6 +46,10 @@ func (sr *serialRecorder) Read(p []byte) (n int, err error) {
 }
 
 func (sr *serialRecorder) Write(p []byte) (n int, err error) {
+	// Writes are logged in the order they were written
+	sr.writeMutex.Lock()
+	defer sr.writeMutex.Unlock()
+
 	n, err = sr.serial.Write(p)
 	sr.writeToLog(DirectionWrite, p[:n])
 	return
-- 
2.43.0


From 73937ac9f3edc4eb942035bb68dfd669ef9675d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:01 +0000
Subject: [PATCH 26/39] fix: keep the lost port of the recorder until it is
 opened again

---
 serialrecorder/serialrecorder.go | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/serialrecorder/serialrecorder.go b/serialrecorder/serialrecorder.go
index 564d695..6afa6dc 100644
--- a/serialrecorder/serialrecorder.go
+++ b/serialrecorder/serialrecorder.go
@@ -12,6 +12,7 @@ import (
 )
 
 type serialRecorder struct {
+	sync.RWMutex
 	serial io.ReadWriteCloser
 	port   string
 	baud   int
@@ -40,7 +41,7 @@ func New(port string, baud int) *serialRecorder {
 }
 
 func (sr *serialRecorder) Read(p []byte) (n int, err error) {
-	n, err = sr.serial.Read(p)
+	n, err = sr.current().Read(p)
 	sr.writeToLog(DirectionRead, p[:n])
 	return
 }
@@ -50,7 +51,7 @@ func (sr *serialRecorder) Write(p []byte) (n int, err error) {
 	sr.writeMutex.Lock()
 	defer sr.writeMutex.Unlock()
 
-	n, err = sr.serial.Write(p)
+	n, err = sr.current().Write(p)
 	sr.writeToLog(DirectionWrite, p[:n])
 	return
 }
@@ -75,14 +76,30 @@ func (sr *serialRecorder) logWriter() {
 }
 
 func (sr *serialRecorder) Close() error {
-	return sr.serial.Close()
+	return sr.current().Close()
 }
+
+// current returns the port that was opened last
+func (sr *serialRecorder) current() io.ReadWriteCloser {
+	sr.RLock()
+	defer sr.RUnlock()
+
+	return sr.serial
+}
+
 func (sr *serialRecorder) Open() (io.ReadWriteCloser, error) {
 	sr.startWriter.Do(func() { // There is one log, also if the port is opened again
 		go sr.logWriter()
 	})
 
-	var err error
-	sr.serial, err = serial.OpenPort(&serial.Config{Name: sr.port, Baud: sr.baud})
-	return sr, err
+	port, err := serial.OpenPort(&serial.Config{Name: sr.port, Baud: sr.baud})
+	if err != nil { // The port that was lost is kept, it gives an error when it is used
+		return sr, err
+	}
+
+	sr.Lock()
+	sr.serial = port
+	sr.Unlock()
+
+	return sr, nil
 }
-- 
2.43.0


From 5cc6d620e369c2211a5de3cdca81b5d0d56aebed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:24 +0000
Subject: [PATCH 27/39] fix: generate code that compiles when there are no
 device classes

---
 generators/commandclasses/commandclasses.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/generators/commandclasses/commandclasses.go b/generators/commandclasses/commandclasses.go
index 8884d41..20c4856 100644
--- a/generators/commandclasses/commandclasses.go
+++ b/generators/commandclasses/commandclasses.go
@@ -233,9 +233,11 @@ func StringToByte(s string) byte {
 }
 
 var templ = `package {{.Package}}
+{{- if .CommandClasses }}
 import (
 	"github.com/stampzilla/gozwave/protocol"
 )
+{{- end }}
 
 var definitions = map[Definition][]*CommandClass{
 {{- range $key, $value := .CommandClasses }}
-- 
2.43.0


From 0eba071d28ef71c5d18f72ff8d629d66fd46ef95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:12 +0000
Subject: [PATCH 28/39] fix: a request without a timeout never ended

---
 connection.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/connection.go b/connection.go
index 4b664ea..a5555d0 100644
--- a/connection.go
+++ b/connection.go
@@ -225,7 +225,7 @@ func (conn *Connection) Writer() {
 			conn.sequence++
 			pkg.sequence = conn.sequence
 
-			if pkg.timeout != 0 && pkg.IsOpen() { // Only add the message to the inflight list if someone is waiting for an response
+			if pkg.IsOpen() { // Only add the message to the inflight list if someone is waiting for an response
 				conn.inFlight[pkg.uuid] = pkg
 				go conn.timeoutWorker(pkg)
 			}
-- 
2.43.0


From e4439bd84af92c930f73d33126ae0337fbeb105a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:02 +0000
Subject: [PATCH 29/39] fix: the error of opening the port could be lost when
 connecting

---
 gozwave.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gozwave.go b/gozwave.go
index 432b3cc..49208e0 100644
--- a/gozwave.go
+++ b/gozwave.go
@@ -26,7 +26,7 @@ func ConnectWithCustomPortOpener(port string, filename string, po PortOpener) (*
 	var err error
 
 	c.Connection.reportCallback = c.DeliverReportToNode
-	connected := make(chan error)
+	connected := make(chan error, 1) // The result of the first attempt is not lost
 
 	//spew.Dump(c)
 
-- 
2.43.0


From d9df069ae8461239017f48bf3c7537dcd84fe846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:02 +0000
Subject: [PATCH 30/39] fix: a failed connect went on opening the port

---
 gozwave.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/gozwave.go b/gozwave.go
index 49208e0..3ee856c 100644
--- a/gozwave.go
+++ b/gozwave.go
@@ -26,7 +26,8 @@ func ConnectWithCustomPortOpener(port string, filename string, po PortOpener) (*
 	var err error
 
 	c.Connection.reportCallback = c.DeliverReportToNode
-	connected := make(chan error, 1) // The result of the first attempt is not lost
+	connected := make(chan error) // The result of the first attempt is not lost
+	abandoned := make(chan struct{})
 
 	//spew.Dump(c)
 
@@ -38,12 +39,18 @@ func ConnectWithCustomPortOpener(port string, filename string, po PortOpener) (*
 		for {
 			err := c.Connection.Connect(connected)
 			logrus.Error(err)
-			<-time.After(time.Second)
+
+			select {
+			case <-abandoned: // No one has this controller, leave the port alone
+				return
+			case <-time.After(time.Second):
+			}
 		}
 	}()
 
 	err = <-connected
 	if err != nil {
+		close(abandoned)
 		return nil, err
 	}
 
-- 
2.43.0


From a70bb0858d8669fcd0403240729f0ac76d815ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:56 +0000
Subject: [PATCH 31/39] fix: the generators ended successfully when a device
 file could not be read or the output not be written

---
 generators/commandclasses/commandclasses.go |  7 +------
 generators/database/database.go             | 14 +++-----------
 2 files changed, 4 insertions(+), 17 deletions(-)

diff --git a/generators/commandclasses/commandclasses.go b/generators/commandclasses/commandclasses.go
index 20c4856..544613e 100644
--- a/generators/commandclasses/commandclasses.go
+++ b/generators/commandclasses/commandclasses.go
@@ -112,12 +112,7 @@ func main() {
 		var file *os.File
 		file, err = os.Create(outputfile)
 		if err != nil {
-			log.Println(err)
-			return
-		}
-		if err != nil {
-			log.Println("Unable to open file", err)
-			return
+			log.Fatal("Unable to open file: ", err)
 		}
 		err = t.Execute(file, data)
 		file.Close()
diff --git a/generators/database/database.go b/generators/database/database.go
index 82651be..991b236 100644
--- a/generators/database/database.go
+++ b/generators/database/database.go
@@ -3,7 +3,6 @@ package main
 import (
 	"encoding/json"
 	"flag"
-	"fmt"
 	"io/ioutil"
 	"log"
 	"os"
@@ -278,15 +277,13 @@ func main() {
 		}
 		jsonFile, err := os.Open(filepath.Join(databaseDir, file.Name()))
 		if err != nil {
-			fmt.Println("Error opening file:", err)
-			return
+			log.Fatal("Error opening file: ", err)
 		}
 		decoder := json.NewDecoder(jsonFile)
 		var dev deviceData
 		if err = decoder.Decode(&dev); err != nil {
 			log.Println(file.Name())
-			log.Println(err)
-			return
+			log.Fatal(err)
 		}
 		switch len(dev.Endpoints) {
 		default:
@@ -329,12 +326,7 @@ func main() {
 		var file *os.File
 		file, err = os.Create(outputfile)
 		if err != nil {
-			log.Println(err)
-			return
-		}
-		if err != nil {
-			log.Println("Unable to open file", err)
-			return
+			log.Fatal("Unable to open file: ", err)
 		}
 		err = t.Execute(file, devices)
 		file.Close()
-- 
2.43.0


From d9bfac2e8764f220b20aa227bf2d07eb08d519b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:20 +0000
Subject: [PATCH 32/39] fix: the example went on without a controller when the
 port could not be opened

---
 zwave-example/example.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zwave-example/example.go b/zwave-example/example.go
index 6973b10..a31cc0f 100644
--- a/zwave-example/example.go
+++ b/zwave-example/example.go
@@ -31,7 +31,7 @@ func main() {
 	z, err := gozwave.Connect(port, "")
 
 	if err != nil {
-		log.Println(err)
+		log.Fatal(err)
 	}
 
 	r := gin.Default()
-- 
2.43.0


From d3754b80a8cc0438c06849f014a4888a0233c2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:47 +0000
Subject: [PATCH 33/39] fix: a request whose caller had stopped waiting held up
 the receiver, and the other requests, for a second

---
 connection.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/connection.go b/connection.go
index a5555d0..913788f 100644
--- a/connection.go
+++ b/connection.go
@@ -126,7 +126,7 @@ func (conn *Connection) Write(msg interfaces.Encodable) error {
 }
 func (conn *Connection) WriteWithTimeout(msg interfaces.Encodable, t time.Duration) (<-chan *serialapi.Message, error) {
 	pkg := newSendPackage(msg.Encode())
-	responseChan := make(chan *serialapi.Message)
+	responseChan := make(chan *serialapi.Message, 1) // The receiver does not wait for the one who asked
 	pkg.returnChan = responseChan
 	pkg.timeout = t
 
@@ -136,8 +136,8 @@ func (conn *Connection) WriteWithTimeout(msg interfaces.Encodable, t time.Durati
 }
 func (conn *Connection) WriteAndWaitForReport(msg interfaces.Encodable, t time.Duration, er byte) (<-chan reports.Report, error) {
 	pkg := newSendPackage(msg.Encode())
-	returnChan := make(chan reports.Report)
-	responseChan := make(chan *serialapi.Message)
+	returnChan := make(chan reports.Report, 1)
+	responseChan := make(chan *serialapi.Message, 1)
 	pkg.returnChan = responseChan
 	pkg.timeout = t
 	pkg.expectedReport = er
-- 
2.43.0


From 5e14c4037552ba0b0b0187b51df358844afe7b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:47 +0000
Subject: [PATCH 34/39] fix: a write that took long held up the receiver and
 the timeouts of all requests

---
 connection.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/connection.go b/connection.go
index 913788f..96fbca7 100644
--- a/connection.go
+++ b/connection.go
@@ -231,9 +231,11 @@ func (conn *Connection) Writer() {
 			}
 
 			logrus.Debugf("Write: %x", pkg.message)
-			conn.readWriteCloser.Write(pkg.message)
+			port := conn.readWriteCloser
 			conn.Unlock()
 
+			port.Write(pkg.message) // It may take long, nothing else waits for it
+
 			select {
 			case <-pkg.result:
 			case <-time.After(time.Second):
-- 
2.43.0


From 2c755f9c725f418755e22669564a589e45b0728c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:47 +0000
Subject: [PATCH 35/39] fix: saving without a file name wrote to, and removed,
 a file named .tmp

---
 controller.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/controller.go b/controller.go
index 505aa83..fbdbe07 100644
--- a/controller.go
+++ b/controller.go
@@ -135,6 +135,10 @@ func (c *Controller) SaveConfigurationToFile() error {
 	c.saving.Lock()
 	defer c.saving.Unlock()
 
+	if c.filename == "" {
+		return fmt.Errorf("there is no file to save to")
+	}
+
 	out, err := json.MarshalIndent(c, "", "\t")
 	if err != nil {
 		logrus.Error("error marshal json", err)
-- 
2.43.0


From f1736f542a9e142793ebbe63b2c8a63be3df1298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:47 +0000
Subject: [PATCH 36/39] fix: what a read gave together with an error was
 dropped

---
 connection.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/connection.go b/connection.go
index 96fbca7..168ee35 100644
--- a/connection.go
+++ b/connection.go
@@ -256,12 +256,7 @@ func (conn *Connection) Reader() error {
 	for {
 		buf := make([]byte, 128)
 
-		n, err := conn.readWriteCloser.Read(buf)
-		if err != nil {
-			logrus.Error("Serial read failed: ", err)
-			conn.readWriteCloser.Close()
-			return err
-		}
+		n, readErr := conn.readWriteCloser.Read(buf)
 
 		//fmt.Println(hex.Dump(buf[:n]))
 
@@ -327,6 +322,12 @@ func (conn *Connection) Reader() error {
 			}
 
 		}
+
+		if readErr != nil { // What was read together with the error is handled first
+			logrus.Error("Serial read failed: ", readErr)
+			conn.readWriteCloser.Close()
+			return readErr
+		}
 	}
 
 }
-- 
2.43.0


From e8de2a0f89f53e3a65a704fb516d827d9f43b74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:47 +0000
Subject: [PATCH 37/39] fix: the nodes were asked for only once, and never
 found when that failed

---
 gozwave.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/gozwave.go b/gozwave.go
index 3ee856c..bfae8ae 100644
--- a/gozwave.go
+++ b/gozwave.go
@@ -54,7 +54,16 @@ func ConnectWithCustomPortOpener(port string, filename string, po PortOpener) (*
 		return nil, err
 	}
 
-	go c.getNodes()
+	go func() {
+		for {
+			_, err := c.getNodes()
+			if err == nil {
+				return
+			}
+			logrus.Errorf("Failed to get the nodes: %s", err.Error())
+			<-time.After(time.Second * 10)
+		}
+	}()
 	go c.saveDebouncer()
 
 	return c, err
-- 
2.43.0


From ee9001de9d63559d11d7123d278577bb18ddb9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:43 +0000
Subject: [PATCH 38/39] fix: the result of opening the port could be lost again
 when connecting

---
 gozwave.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gozwave.go b/gozwave.go
index bfae8ae..9a529a3 100644
--- a/gozwave.go
+++ b/gozwave.go
@@ -26,7 +26,7 @@ func ConnectWithCustomPortOpener(port string, filename string, po PortOpener) (*
 	var err error
 
 	c.Connection.reportCallback = c.DeliverReportToNode
-	connected := make(chan error) // The result of the first attempt is not lost
+	connected := make(chan error, 1) // The result of the first attempt is not lost
 	abandoned := make(chan struct{})
 
 	//spew.Dump(c)
-- 
2.43.0


From f6781064eb060b3b61060347b1a4622af8ccd347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:04 +0000
Subject: [PATCH 39/39] fix: a partial frame is dropped after 40 ms of silence
 even when reads return without bytes

---
 connection.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/connection.go b/connection.go
index 168ee35..86a1bee 100644
--- a/connection.go
+++ b/connection.go
@@ -265,6 +265,10 @@ func (conn *Connection) Reader() error {
 			incomming = make([]byte, 0)
 		}
 
+		if n == 0 && readErr == nil { // Nothing happened, the line is still silent
+			continue
+		}
+
 		incomming = append(incomming, buf[:n]...)
 		age = time.Now()
 
-- 
2.43.0

